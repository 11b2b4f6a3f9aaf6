------------------------------ MODULE MC_Multi ------------------------------
(***************************************************************************)
(* Values that are written on several lines, in each of the ways there are, *)
(* from contents of up to MaxLines lines.  The value is stated from the     *)
(* contents, and the key and section after it show that exactly these lines *)
(* were taken.                                                              *)
(***************************************************************************)
EXTENDS MC

CONSTANTS MaxLines, Every

Contents == <<"a", "  b c", "", "# d", "x = 1", "[s]", "e ; f", "é\"'", "\tt">>
Styles == <<"tdq", "bt", "cont", "py", "py0", "dq">>
Afters == << "z = 9\n", "[t]\nz = 9\n", "# c\nz = 9\n", "\nz = 9\n" >>

VARIABLES st, ls, af, crlf
vars == <<st, ls, af, crlf>>
Style == Styles[st]
(* Which contents a way of writing can hold on line i.                      *)
Fits(i, c) ==
  CASE Style = "cont" -> c \in {1, 2, 4, 5, 6, 7, 8} /\ (i = 1 => c \notin {4, 6})
    [] Style \in {"py", "py0"} -> c \in {2, 9} \/ (i = 1 /\ c = 1 /\ Style = "py")
    [] Style = "dq" -> c # 8
    [] OTHER -> TRUE
Init == st \in 1..Len(Styles) /\ ls = <<>> /\ af \in 1..Len(Afters) /\ crlf \in BOOLEAN
Next == /\ Len(ls) < MaxLines
        /\ \E c \in {k \in 1..Len(Contents) : Fits(Len(ls) + 1, k)} : ls' = Append(ls, c)
        /\ UNCHANGED <<st, af, crlf>>
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
Opt == [py |-> Style \in {"py", "py0"}, unescDQ |-> Style = "dq"]
C(i) == X(Contents[ls[i]])
N == Len(ls)
All(F(_)) == Flat(<<>> \o [i \in 1..N |-> F(i)])
Joined(sep) == Join(<<>> \o [i \in 1..N |-> C(i)], sep)
Quote == CASE Style = "tdq" -> TDQ [] Style = "bt" -> <<BT>> [] Style = "dq" -> <<DQ>> [] OTHER -> <<>>
Nl == IF crlf THEN <<CR, LF>> ELSE <<LF>>
Body ==
  CASE Style \in {"tdq", "bt", "dq"} -> Quote \o Joined(Nl) \o Quote \o Nl
    [] Style = "cont" -> Joined(<<BSL>> \o Nl) \o Nl
    [] Style = "py" -> Joined(Nl) \o Nl
    [] Style = "py0" -> Nl \o Joined(Nl) \o (IF N = 0 THEN <<>> ELSE Nl)
After == Flat(<<>> \o [i \in 1..Len(X(Afters[af])) |-> LET c == X(Afters[af])[i] IN IF c = LF THEN Nl ELSE <<c>>])
Text == X("k = ") \o Body \o After
(* Carriage returns are part of what quotes hold; the last line of indented *)
(* ones keeps one, too.                                                     *)
Told ==
  CASE Style \in {"tdq", "bt", "dq"} -> Joined(Nl)
    [] Style = "cont" -> All(LAMBDA i : IF i = 1 THEN TrimLeft(C(1)) ELSE Trim(C(i)))
    [] Style = "py" -> LET one == IF N = 0 THEN <<>> ELSE Trim(C(1)) IN
                       one \o Flat(<<>> \o [i \in 1..(N - 1) |-> <<LF>> \o C(i + 1) \o (IF crlf THEN <<CR>> ELSE <<>>)])
    [] Style = "py0" -> All(LAMBDA i : <<LF>> \o C(i) \o (IF crlf THEN <<CR>> ELSE <<>>))
InLine == Style = "cont" /\ N = 1 /\ HasAny(C(1), CommentChars)
Sound == ~InLine /\ ~(Style = "py" /\ N > 0 /\ ls[1] # 1)
Exact ==
  Sound =>
  LET r == Load(OptsOf(Opt), << [k |-> "text", t |-> Text] >>)
      p == Plain(r.d)
      k == <<X("k"), Told>> z == <<X("z"), X("9")>> IN
  /\ r.err = ""
  /\ p = IF af = 2 THEN << [n |-> DefaultName, keys |-> <<k>>], [n |-> X("t"), keys |-> <<z>>] >>
         ELSE << [n |-> DefaultName, keys |-> <<k, z>>] >>
  /\ af = 3 => r.d.secs[1].keys[2].c = X("# c")
  /\ af # 3 => r.d.secs[1].keys[1].c = <<>>

Num == FoldLeft(LAMBDA a, x : (a * 11 + x) % 1000003, st * 8 + af * 2 + (IF crlf THEN 1 ELSE 0), ls)
Histories == EmitSome(Every, Num, << LoadStep(Opt, Str(Text)), Obs, [op |-> "rt", g |-> Pretty, cmp |-> "plain"] >>)
=============================================================================
