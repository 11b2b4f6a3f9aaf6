------------------------------- MODULE MC_Refs ------------------------------
(***************************************************************************)
(* All graphs of references between three keys of a section, one of its     *)
(* parent's, and two of the default section, with values from a small set.  *)
(* Stated without the rounds of the library: the first reference of a text  *)
(* is replaced by what it refers to, everywhere in the text; in a graph     *)
(* without cycles the result is the full expansion, which has no reference  *)
(* left but ones from the first unknown name on; values are never changed.  *)
(***************************************************************************)
EXTENDS MC

CONSTANTS Every, Cut

Values == <<"u", "%(a)s", "%(b)s-%(b)s", "%(c)s%(zz)s%(a)s", "%(d)s", "">>

VARIABLES vals
(* a b c in [p.s], c d in [p], a d in the default section                   *)
Slots == << <<"p.s", "a">>, <<"p.s", "b">>, <<"p.s", "c">>, <<"p", "d">>, <<"DEFAULT", "a">>, <<"DEFAULT", "d">> >>
Init == vals = <<>>
V(i) == Values[vals[i]]
TextOf(v) ==
  LET K(i) == X(Slots[i][2]) \o X(" = ") \o X(Values[v[i]]) \o <<LF>> IN
  K(5) \o K(6) \o X("[p.s]\n") \o K(1) \o K(2) \o K(3) \o X("[p]\n") \o K(4)
Num(v) == FoldLeft(LAMBDA a, x : (a * 31 + x) % 1000003, 0, v)
Next == /\ Len(vals) < Len(Slots)
        /\ \E i \in 1..Len(Values) : (Len(vals) < 4 \/ i <= Cut) /\ vals' = Append(vals, i)
Spec == Init /\ [][Next]_vals

------------------------------------------------------------------------------
Sees(i) == (* slots in the order in which a key of slot i looks for names    *)
  IF Slots[i][1] = "p.s" THEN <<1, 2, 3, 4, 5, 6>> ELSE IF Slots[i][1] = "p" THEN <<4, 5, 6>> ELSE <<5, 6>>
Default(n) == SelectSeq(<<5, 6>>, LAMBDA j : Slots[j][2] = n)
RefTo(i, n) ==
  LET c == SelectSeq(Sees(i), LAMBDA j : Slots[j][2] = n)
      first == IF c = <<>> THEN 0 ELSE c[1] IN
  IF first = i THEN (IF Default(n) = <<>> THEN 0 ELSE Default(n)[1]) ELSE first

(* The names in a value, in order. *)
Refs(t) == SelectSeq(<<"a", "b", "c", "d", "zz">>, LAMBDA n : IdxSub(t, 1, X("%(") \o X(n) \o X(")s")) # 0)
FirstRef(t) ==
  IF Refs(t) = <<>> THEN ""
  ELSE LET p(n) == IdxSub(t, 1, X("%(") \o X(n) \o X(")s")) IN
       CHOOSE n \in Range(Refs(t)) : \A m \in Range(Refs(t)) : p(n) <= p(m)
RECURSIVE FullExp(_, _, _)
FullExp(i, t, fuel) ==
  LET n == FirstRef(t) IN
  IF n = "" \/ fuel = 0 \/ RefTo(i, n) = 0 THEN t
  ELSE FullExp(i, Replace(t, X("%(") \o X(n) \o X(")s"), X(V(RefTo(i, n)))), fuel - 1)

(* Names are looked up from the key that is read, all through.             *)
RECURSIVE Reach(_, _, _)
Reach(i, S, fuel) ==
  IF fuel = 0 THEN S
  ELSE Reach(i, S \cup UNION {{RefTo(i, n) : n \in Range(Refs(X(V(j))))} \ {0} : j \in S}, fuel - 1)
From1(i, j) == Reach(i, {RefTo(i, n) : n \in Range(Refs(X(V(j))))} \ {0}, 6)
Acyclic(i) == \A j \in {i} \cup From1(i, i) : j \notin From1(i, j)

PosOf(i) == CASE Slots[i][1] = "p.s" -> 2 [] Slots[i][1] = "p" -> 3 [] OTHER -> 1
Resolves ==
  Len(vals) = Len(Slots) =>
  LET d == Load(DefaultOpts, << [k |-> "text", t |-> TextOf(vals)] >>).d IN
  \A i \in 1..Len(Slots) :
    Acyclic(i) =>
    LET r == KeyString(d, "", PosOf(i), OwnKey(d, PosOf(i), X(Slots[i][2]))) IN
    /\ r.v = FullExp(i, X(V(i)), 40)
    /\ r.d = d
    /\ Refs(r.v) # <<>> => RefTo(i, FirstRef(r.v)) = 0

(* Values on a cycle that grow in every round are not followed: some of     *)
(* them are read, which has to end.                                         *)
Quiet(i) == Acyclic(i) \/ \A j \in {i} \cup From1(i, i) : vals[j] \notin {3, 4}
Read(op, i) == [op |-> op, s |-> PosOf(i), key |-> Slots[i][2]]
ReadAll == LET quiet == Where(Slots, Quiet)
               loud == Where(Slots, LAMBDA i : ~Quiet(i) /\ Num(vals) % 97 = 0) IN
           (<<>> \o [i \in 1..Len(quiet) |-> Read("string", quiet[i])])
           \o (<<>> \o [i \in 1..Len(loud) |-> Read("term", loud[i])])
Listing == [op |-> "strings", s |-> 2, key |-> "c", delim |-> "-"]
Histories ==
  Len(vals) = Len(Slots) =>
  EmitSome(Every, Num(vals), << LoadStep(NoOpts, Str(TextOf(vals))) >> \o ReadAll
                             \o (IF Quiet(3) THEN <<Listing, Obs>> ELSE <<Obs>>))
=============================================================================
