------------------------------ MODULE MC_Lists ------------------------------
(***************************************************************************)
(* All lists of up to MaxLen parts, written with a delimiter: every         *)
(* backslash and every delimiter in a part with a backslash before it,      *)
(* parts with or without blanks around them.  Splitting gives the parts     *)
(* back.  And lists of tokens of known meaning: the lenient, the valid and  *)
(* the strict form are what they should be of the parts' meanings.          *)
(***************************************************************************)
EXTENDS MC

CONSTANTS MaxLen, MaxPart, Every

Delims == <<",", "::", "é", " ">>
VARIABLES kind, dl, pad, ws
vars == <<kind, dl, pad, ws>>
D == X(Delims[dl])
Blank == D = <<" ">>

(* Pieces of which parts are made; the delimiter is one of them.            *)
Pieces == << X("a"), <<BSL>>, D, X("1"), X("b c") >>
RECURSIVE Made(_)
Made(n) == IF n = 0 THEN {<<>>} ELSE Made(n - 1) \cup {Append(t, i) : t \in Made(n - 1), i \in 1..Len(Pieces)}
Enc(part) == Flat(<<>> \o [i \in 1..Len(part) |->
                LET p == Pieces[part[i]] IN
                IF part[i] \in {2, 3} THEN <<BSL>> \o p ELSE IF Blank THEN SelectSeq(p, LAMBDA c : c # " ") ELSE p])
Dec1(part) == Flat(<<>> \o [i \in 1..Len(part) |->
                LET p == Pieces[part[i]] IN IF Blank /\ part[i] = 5 THEN SelectSeq(p, LAMBDA c : c # " ") ELSE p])
(* Blanks at the ends of a part would be trimmed.                           *)
OkPart(part) == IF ~Blank THEN TRUE ELSE IF part = <<>> THEN TRUE ELSE (part[1] # 3 /\ part[Len(part)] # 3)

(* Tokens: text, what each type makes of it ("-" nothing).                  *)
Tokens == << [t |-> "7", int |-> "7", uint |-> "7", float |-> "7", bool |-> "-"],
             [t |-> "-7", int |-> "-7", uint |-> "-", float |-> "-7", bool |-> "-"],
             [t |-> "0x1F", int |-> "31", uint |-> "31", float |-> "-", bool |-> "-"],
             [t |-> "2.50", int |-> "-", uint |-> "-", float |-> "2.5", bool |-> "-"],
             [t |-> "1", int |-> "1", uint |-> "1", float |-> "1", bool |-> "true"],
             [t |-> "off", int |-> "-", uint |-> "-", float |-> "-", bool |-> "false"],
             [t |-> "x", int |-> "-", uint |-> "-", float |-> "-", bool |-> "-"],
             [t |-> "", int |-> "-", uint |-> "-", float |-> "-", bool |-> "-"],
             [t |-> "9223372036854775808", int |-> "-", uint |-> "9223372036854775808", float |-> "?", bool |-> "-"] >>
Types == {"int", "int64", "uint", "uint64", "float", "bool"}
Base(ty) == CASE ty = "int64" -> "int" [] ty = "uint64" -> "uint" [] OTHER -> ty

Init == ws = <<>> /\ pad \in 0..2 /\ \/ kind = "parts" /\ dl \in 1..Len(Delims)
                                     \/ kind = "tokens" /\ dl \in 1..2
Next == /\ Len(ws) < MaxLen
        /\ IF kind = "parts" THEN \E p \in Made(MaxPart) : OkPart(p) /\ ws' = Append(ws, p)
           ELSE \E i \in 1..Len(Tokens) : ws' = Append(ws, <<i>>)
        /\ UNCHANGED <<kind, dl, pad>>
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
PadL == IF pad = 0 \/ Blank THEN <<>> ELSE <<" ">>
PadR == IF pad = 2 /\ ~Blank THEN <<" ", TAB>> ELSE <<>>
PartText(p) == IF kind = "parts" THEN Enc(p) ELSE X(Tokens[p[1]].t)
Meant(p) == IF kind = "parts" THEN Dec1(p) ELSE X(Tokens[p[1]].t)
Text == Join(<<>> \o [i \in 1..Len(ws) |-> PadL \o PartText(ws[i]) \o PadR], D)
All == <<>> \o [i \in 1..Len(ws) |-> Meant(ws[i])]
LastEmpty == ws # <<>> /\ PartText(ws[Len(ws)]) = <<>> /\ PadL = <<>> /\ PadR = <<>>
Wanted == IF LastEmpty THEN Upto(All, Len(All) - 1) ELSE All
SplitsBack == Parts(Text, D) = Wanted

Told(ty) == LET n == Len(Wanted)
                T(i) == LET t == Tokens[ws[i][1]] IN
                        CASE Base(ty) = "int" -> t.int [] Base(ty) = "uint" -> t.uint
                          [] Base(ty) = "float" -> t.float [] OTHER -> t.bool IN
            <<>> \o [i \in 1..n |-> T(i)]
Known(ty) == \A i \in 1..Len(Wanted) : Told(ty)[i] # "?"
Converts ==
  kind = "tokens" => \A ty \in Types : Known(ty) =>
    LET told == Told(ty)
        good == SelectSeq(told, LAMBDA t : t # "-")
        zero == IF ty = "bool" THEN "false" ELSE "0"
        ps == Parts(Text, D) IN
    /\ ListAs(ty, "valid", ps) = [e |-> FALSE, v |-> XS(good)]
    /\ ListAs(ty, "lenient", ps) = [e |-> FALSE, v |-> XS([i \in 1..Len(told) |-> IF told[i] = "-" THEN zero ELSE told[i]])]
    /\ ListAs(ty, "strict", ps) = IF Len(good) = Len(told) THEN [e |-> FALSE, v |-> XS(told)] ELSE [e |-> TRUE, v |-> <<>>]

RECURSIVE Code(_, _)
Code(s, a) == IF s = <<>> THEN a ELSE Code(Tail(s), (a * 7 + Head(s)) % 1000003)
Num == FoldLeft(LAMBDA a, p : Code(p, (a * 3 + 5) % 1000003), dl * 3 + pad, ws)
Lst(ty, m) == [op |-> "list", s |-> 1, key |-> "k", ty |-> ty, mode |-> m, delim |-> Delims[dl]]
AllLists == LET q == SetToSeq(Types \X {"lenient", "valid", "strict"}) IN <<>> \o [i \in 1..Len(q) |-> Lst(q[i][1], q[i][2])]
Histories ==
  EmitSome(IF kind = "tokens" THEN 1 + Every \div 3 ELSE Every, Num,
     << LoadStep(NoOpts, ""), [op |-> "newkey", s |-> 1, n |-> "k", v |-> Str(Text)],
        [op |-> "strings", s |-> 1, key |-> "k", delim |-> Delims[dl]] >>
     \o (IF kind = "tokens" /\ Known("float") THEN AllLists ELSE <<>>))
=============================================================================
