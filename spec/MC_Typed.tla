------------------------------ MODULE MC_Typed ------------------------------
(***************************************************************************)
(* Texts made from what they denote: whole numbers in every base with and   *)
(* without sign and underscores, numbers around the limits of the types,    *)
(* words for truth in every case, decimal fractions with and without        *)
(* exponent, durations from hours, minutes and seconds, every day of some   *)
(* years.  What an accessor returns is stated from the parts; the variants  *)
(* with a default keep or store what they should.                           *)
(***************************************************************************)
EXTENDS MC

CONSTANTS N, Every

VARIABLE c
vars == <<c>>

Bases == << [b |-> 10, p |-> ""], [b |-> 16, p |-> "0x"], [b |-> 16, p |-> "0X"], [b |-> 8, p |-> "0o"],
            [b |-> 8, p |-> "0"], [b |-> 2, p |-> "0b"] >>
Hex == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "B", "c", "D", "e", "F">>
RECURSIVE InBase(_, _)
InBase(n, b) == IF n < b THEN <<Hex[n + 1]>> ELSE InBase(n \div b, b) \o <<Hex[(n % b) + 1]>>
(* under: 0 none, 1 between all digits, 2 behind the prefix, 3 at the end,  *)
(* 4 two in the middle, 5 in front.  Only 1 and 2 are allowed.              *)
Under(ds, u) == IF u = 1 THEN Join(<<>> \o [i \in 1..Len(ds) |-> <<ds[i]>>], <<"_">>)
                ELSE IF u = 4 /\ Len(ds) > 1 THEN <<ds[1], "_", "_">> \o Tail(ds) ELSE ds
IntText(x) ==
  LET p == X(Bases[x.b].p) ds == InBase(x.n, Bases[x.b].b) IN
  X(x.s) \o (IF x.u = 5 THEN <<"_">> ELSE <<>>) \o p \o (IF x.u = 2 THEN <<"_">> ELSE <<>>) \o Under(ds, x.u)
  \o (IF x.u = 3 THEN <<"_">> ELSE <<>>)
(* Decimal numbers have no prefix, and no underscores at all (a prefix      *)
(* tells that the number is a literal).  A lone zero is its own prefix.     *)
IntOK(x) ==
  /\ CASE x.u = 0 -> TRUE
       [] x.u = 1 -> TRUE
       [] x.u = 2 -> Bases[x.b].p # ""
       [] x.u = 4 -> Len(InBase(x.n, Bases[x.b].b)) = 1
       [] OTHER -> FALSE
IntMeant(x) == (IF x.s = "-" /\ x.n # 0 THEN <<"-">> ELSE <<>>) \o Dec(x.n)

Ints == [k : {"int"}, n : 0..N \cup {255, 256, 1023, 4096, 65535, 1000000, 2147483647}, b : 1..Len(Bases), s : {"", "-", "+"}, u : 0..5]
(* Around the limits: the leading digits of a limit and one more digit.     *)
Edges == [k : {"edge"}, p : {"922337203685477580", "1844674407370955161", "214748364", "429496729", "99999999999999999999"},
          d : 0..9, s : {"", "-"}]
EdgeText(x) == X(x.s) \o X(x.p) \o Dec(x.d)
EdgeSigned(x) == CASE x.p = "922337203685477580" -> x.d <= (IF x.s = "-" THEN 8 ELSE 7)
                   [] x.p \in {"214748364", "429496729"} -> TRUE
                   [] OTHER -> FALSE
EdgeUnsigned(x) == x.s = "" /\ CASE x.p = "1844674407370955161" -> x.d <= 5
                                 [] x.p = "99999999999999999999" -> FALSE [] OTHER -> TRUE

Words == {"t", "f", "true", "false", "yes", "no", "y", "n", "on", "off"}
Means == [w \in Words |-> w \in {"t", "true", "yes", "y", "on"}]
Cases1(w) == {<<>> \o [i \in 1..Len(w) |-> IF i \in S THEN UpperC(X(w)[i]) ELSE X(w)[i]] : S \in SUBSET (1..Len(w))}
Bools == UNION {[k : {"bool"}, w : {w}, t : Cases1(w)] : w \in Words}
(* Lower case, upper case or capitalized (but only y and n, not Y and N).   *)
BoolOK(x) == LET t == x.t w == X(x.w) IN
             \/ t = w
             \/ t = Upper(w) /\ x.w \notin {"y", "n"}
             \/ t = <<UpperC(w[1])>> \o Tail(w) /\ Len(w) > 1

Mants == {"0", "1", "7", "10", "25", "100", "12345"}
Floats == [k : {"float"}, i : Mants, f : {"", "0", "5", "25", "005"}, e : {-7, -3, -1, 0, 1, 2, 5}, s : {"", "-"}, x : {"e", "E"}]
FloatExp(x) == X(x.s) \o X(x.i) \o (IF x.f = "" THEN <<>> ELSE <<".">> \o X(x.f)) \o X(x.x)
               \o (IF x.e < 0 THEN <<"-">> \o Dec(-x.e) ELSE Dec(x.e))
(* The same number without exponent: the point moved.                       *)
FloatPlain(x) ==
  LET ds == Zeros(8) \o X(x.i) \o X(x.f) \o Zeros(8)
      at == 8 + Len(x.i) + x.e IN
  X(x.s) \o Upto(ds, at) \o <<".">> \o From(ds, at + 1)

Durs == [k : {"dur"}, h : {0, 1, 25}, m : {0, 1, 59, 90}, s : {0, 1, 45}, ms : {0, 1, 250}, g : {"", "-", "+"}]
DurText(x) == X(x.g) \o Dec(x.h) \o <<"h">> \o Dec(x.m) \o <<"m">> \o Dec(x.s) \o <<"s">> \o Dec(x.ms) \o X("ms")
Pad(t, n) == Zeros(n - Len(t)) \o t
DurMeant(x) == LET secs == x.h * 3600 + x.m * 60 + x.s
                   t == StripLead(Dec(secs) \o Pad(Dec(x.ms), 3) \o Zeros(6)) IN
               IF t = <<>> THEN <<"0">> ELSE (IF x.g = "-" THEN <<"-">> ELSE <<>>) \o t

Dates == [k : {"date"}, y : {1900, 2000, 2023, 2024}, m : 0..13, d : 0..32]
DateText(x) == Dec(x.y) \o <<"-">> \o Pad(Dec(x.m), 2) \o <<"-">> \o Pad(Dec(x.d), 2)
(* Days before each month of a year that is not a leap year.                *)
Before == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365>>
Extra(x) == IF x.m = 2 /\ x.y \in {2000, 2024} THEN 1 ELSE 0
DateMeant(x) == x.m \in 1..12 /\ x.d >= 1 /\ x.d <= Before[x.m + 1] - Before[x.m] + Extra(x)

Init == c \in Ints \cup Edges \cup Bools \cup Floats \cup Durs \cup Dates
Next == FALSE /\ c' = c
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
TextOf == CASE c.k = "int" -> IntText(c) [] c.k = "edge" -> EdgeText(c) [] c.k = "bool" -> c.t
            [] c.k = "float" -> FloatExp(c) [] c.k = "dur" -> DurText(c) [] c.k = "date" -> DateText(c)
Gives(ty, t, ok, v) == ParseAs(ty, t) = IF ok THEN Yes(v) ELSE No
Denotes ==
  LET t == TextOf IN
  CASE c.k = "int" -> /\ Gives("int64", t, IntOK(c), IntMeant(c))
                      /\ Gives("uint64", t, IntOK(c) /\ c.s = "", IntMeant(c))
                      /\ Gives("int32", t, IntOK(c), IntMeant(c))
                      /\ Gives("int16", t, IntOK(c) /\ c.n <= (IF c.s = "-" THEN 32768 ELSE 32767), IntMeant(c))
                      /\ Gives("uint16", t, IntOK(c) /\ c.s = "" /\ c.n <= 65535, IntMeant(c))
                      /\ Gives("int8", t, IntOK(c) /\ c.n <= (IF c.s = "-" THEN 128 ELSE 127), IntMeant(c))
    [] c.k = "edge" -> /\ Gives("int64", t, EdgeSigned(c), t)
                       /\ Gives("uint64", t, EdgeUnsigned(c), t)
                       /\ Gives("int32", t, c.p = "214748364" /\ c.d <= (IF c.s = "-" THEN 8 ELSE 7), t)
                       /\ Gives("uint32", t, c.s = "" /\ (c.p = "214748364" \/ (c.p = "429496729" /\ c.d <= 5)), t)
    [] c.k = "bool" -> Gives("bool", t, BoolOK(c), X(IF Means[c.w] THEN "true" ELSE "false"))
    [] c.k = "float" -> /\ ParseFloat(t).ok
                        /\ ParseFloat(t) = ParseFloat(FloatPlain(c))
                        /\ NumCmp(ParseFloat(t).v, ParseFloat(t).v) = 0
    [] c.k = "dur" -> Gives("dur", t, TRUE, DurMeant(c))
    [] c.k = "date" -> Gives("date", t, DateMeant(c), t \o X("T00:00:00Z"))

(* Reads that take a default, on a document with the text as its value.     *)
Ty == CASE c.k \in {"int", "edge"} -> "int" [] OTHER -> c.k
Def == CASE Ty = "bool" -> "true" [] Ty = "date" -> "2020-01-01T00:00:00Z" [] Ty = "dur" -> "90000000000" [] OTHER -> "12"
Doc == NewKey(Load(DefaultOpts, << [k |-> "text", t |-> <<>>] >>).d, 1, X("k"), TextOf).d
At(d) == [Init0 EXCEPT !.d = d]
K(ev) == [s |-> 1, key |-> "k", ty |-> Ty] @@ ev
Cands == CASE Ty = "date" -> <<"2024-02-29T00:00:00Z", Def>> [] Ty = "float" -> <<"2.5", "10">> [] OTHER -> <<"7", "255">>
Lo == CASE Ty = "date" -> "2000-02-29T00:00:00Z" [] OTHER -> "-3"
Hi == CASE Ty = "date" -> "2023-12-31T00:00:00Z" [] OTHER -> "255"
Defaults ==
  LET d == Doc
      r == ParseAs(Ty, TextOf)
      m == Call(At(d), K([op |-> "must", def |-> Def])) IN
  /\ m.out = IF r.ok THEN r.v ELSE X(Def)
  /\ r.ok => m.st.d = d
  /\ ~r.ok => /\ ParseAs(Ty, m.st.d.secs[1].keys[1].v) = Yes(X(Def))
              /\ Call(m.st, K([op |-> "get"])).out = [e |-> FALSE, v |-> X(Def)]
  /\ Ty \in {"int", "float", "date"} =>
       /\ Call(At(d), K([op |-> "range", def |-> Def, lo |-> Lo, hi |-> Hi])).out \in {X(Def), r.v}
       /\ Call(At(d), K([op |-> "range", def |-> Def, lo |-> Lo, hi |-> Hi])).st.d = d
  /\ (Ty = "int" /\ r.ok /\ c.k = "int") =>
       Call(At(d), K([op |-> "range", def |-> Def, lo |-> Lo, hi |-> Hi])).out
         = (IF (c.s = "-" /\ c.n <= 3) \/ (c.s # "-" /\ c.n <= 255) THEN IntMeant(c) ELSE X(Def))

Wide == IF Ty = "int" THEN <<"int", "int64", "uint", "uint64">> ELSE <<Ty>>
Has2 == Ty \in {"int", "float", "date"}
Num == FoldLeft(LAMBDA a, x : (a * 2 + (CASE x = "1" -> 1 [] x = "-" -> 3 [] x = "0" -> 5 [] x = "2" -> 7 [] OTHER -> 11)) % 1000003, 1, TextOf)
Histories ==
  EmitSome(Every, Num,
    << LoadStep(NoOpts, ""), [op |-> "newkey", s |-> 1, n |-> "k", v |-> Str(TextOf)] >>
    \o (<<>> \o [i \in 1..Len(Wide) |-> [op |-> "get", s |-> 1, key |-> "k", ty |-> Wide[i]]])
    \o (IF Has2 THEN << K([op |-> "range", def |-> Def, lo |-> Lo, hi |-> Hi]), K([op |-> "in", def |-> Def, cands |-> Cands]) >> ELSE <<>>)
    \o << K([op |-> "must", def |-> Def]), [op |-> "value", s |-> 1, key |-> "k"], [op |-> "hash", s |-> 1] >>)
=============================================================================
