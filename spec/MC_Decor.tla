------------------------------ MODULE MC_Decor ------------------------------
(***************************************************************************)
(* All short values with and without quotes around them and text behind     *)
(* them, under all combinations of the options that say what is taken off.  *)
(* The value is stated from the pieces: what is inside backticks or triple  *)
(* quotes is kept; otherwise the comment goes first, then one pair of       *)
(* quotes, and escapes are undone only where asked.                         *)
(***************************************************************************)
EXTENDS MC

CONSTANTS MaxLen, Every

Pieces == << X("a"), <<SQ>>, <<DQ>>, X("\\\""), X("\\#"), X("\\;"), X("#"), X(" ; "), X(" "), <<BT>> >>
Decos == <<"none", "sq", "dq", "bt", "tdq">>
Tails == << "", " # c", ";c", "  " >>
Quote(dc) == CASE dc = "none" -> <<>> [] dc = "sq" -> <<SQ>> [] dc = "dq" -> <<DQ>> [] dc = "bt" -> <<BT>> [] dc = "tdq" -> TDQ

VARIABLES w, dc, tl, on
vars == <<w, dc, tl, on>>
Flags == {"ignInline", "spaceInline", "keepQ", "unescDQ", "unescCS"}
Opt == [f \in Flags |-> f \in on]
OptJson == [ignInline |-> "ignInline" \in on, spaceInline |-> "spaceInline" \in on, keepQ |-> "keepQ" \in on,
            unescDQ |-> "unescDQ" \in on, unescCS |-> "unescCS" \in on]

Init == w = <<>> /\ dc \in 1..Len(Decos) /\ tl \in 1..Len(Tails) /\ on \in SUBSET Flags
Next == /\ Len(w) < MaxLen
        /\ \E i \in 1..Len(Pieces) : w' = Append(w, i)
        /\ UNCHANGED <<dc, tl, on>>
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
Word == Flat(<<>> \o [i \in 1..Len(w) |-> Pieces[w[i]]])
D == Decos[dc]
Tail1 == X(Tails[tl])
TextOf(word) == X("k = ") \o Quote(D) \o word \o Quote(D) \o Tail1 \o X("\nz = 9\n")

(* Values the quoting of which is told by their first character.            *)
Kept(word) == \/ D = "bt" /\ ~HasC(word, BT)
              \/ D = "tdq"
              \/ D = "dq" /\ "unescDQ" \in on
(* Words that do not say otherwise themselves.                              *)
Clear(word) ==
  /\ D = "none" => LET t == TrimLeft(word) IN
                    IF t = <<>> THEN FALSE
                    ELSE t[1] # BT /\ ("unescDQ" \in on => t[1] # DQ) /\ ~StartsWith(t, TDQ)
  /\ D # "tdq" => ~StartsWith(Quote(D) \o word \o Quote(D), TDQ)
  /\ D = "dq" => word # <<>>
  /\ D = "bt" => ~HasC(word, BT)
  /\ D = "tdq" => IdxSub(word, 1, TDQ) = 0

IsCom(t, i) == t[i] \in {"#", ";"} /\ ("spaceInline" \in on => i > 1 /\ t[i - 1] = " ")
Cuts(t) == {i \in 1..Len(t) : IsCom(t, i)}
CutAt(t) == IF "ignInline" \in on \/ Cuts(t) = {} THEN Len(t) + 1 ELSE Min(Cuts(t))
Count(t, c) == Cardinality({i \in 1..Len(t) : t[i] = c})
Unquoted(t) == IF /\ "keepQ" \notin on /\ Len(t) >= 2
              /\ \E q \in {SQ, DQ} : t[1] = q /\ t[Len(t)] = q /\ Count(t, q) = 2
           THEN [v |-> SubSeq(t, 2, Len(t) - 1), q |-> TRUE] ELSE [v |-> t, q |-> FALSE]
RECURSIVE Unescape(_, _)
Unescape(t, S) == IF Len(t) < 2 THEN t
                  ELSE IF t[1] = BSL /\ t[2] \in S THEN <<t[2]>> \o Unescape(From(t, 3), S)
                  ELSE <<t[1]>> \o Unescape(Tail(t), S)
Meant(word) ==
  IF Kept(word) THEN IF D = "dq" THEN Unescape(word, {DQ}) ELSE word
  ELSE LET t == Trim(Quote(D) \o word \o Quote(D) \o Tail1)
           b == Unquoted(Trim(Upto(t, CutAt(t) - 1))) IN
       IF b.q THEN b.v ELSE IF "unescCS" \in on THEN Unescape(b.v, {"#", ";"}) ELSE b.v

Check(word) ==
  Clear(word) =>
  LET r == Load(OptsOf(OptJson), << [k |-> "text", t |-> TextOf(word)] >>) IN
  /\ r.err = ""
  /\ <<>> \o Plain(r.d)[1].keys = << <<X("k"), Meant(word)>>, <<X("z"), X("9")>> >>
TakenOff == Check(Word)

Num == FoldLeft(LAMBDA a, x : (a * 31 + x) % 1000003, (dc * 5 + tl) * 32 + Cardinality(on), w)
Histories == EmitSome(Every, Num, << LoadStep(OptJson, Str(TextOf(Word))), Obs >>)
=============================================================================
