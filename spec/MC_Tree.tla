------------------------------- MODULE MC_Tree ------------------------------
(***************************************************************************)
(* All trees over a few section names, each absent, present without the     *)
(* key, or present with it, in two orders and for several child delimiters. *)
(* Stated from the set of sections alone: a parent of a name is a section   *)
(* whose name followed by the delimiter begins it; the nearest is the one   *)
(* with the longest name.                                                   *)
(***************************************************************************)
EXTENDS MC

CONSTANTS Every

Delims == <<"", "/", "::">>
(* Names are written with "." for the delimiter.                           *)
Names == <<"p", "p.c", "p.c.d", "pc.d", "p.", "q", ".c">>
TDelim(i) == IF Delims[i] = "" THEN <<".">> ELSE X(Delims[i])
Name(n, i) == Replace(X(n), <<".">>, TDelim(i))

VARIABLES how, di, rev
vars == <<how, di, rev>>
(* how[i]: 0 absent, 1 without the key, 2 with it.                         *)
Init == how = <<>> /\ di \in 1..Len(Delims) /\ rev \in BOOLEAN
Opt == IF Delims[di] = "" THEN NoOpts ELSE [child |-> Delims[di]]
Order(h) == IF rev THEN <<>> \o [i \in 1..Len(h) |-> Len(h) + 1 - i] ELSE <<>> \o [i \in 1..Len(h) |-> i]
TextOf(h) ==
  LET o == SelectSeq(Order(h), LAMBDA i : h[i] # 0) IN
  Flat(<<>> \o [j \in 1..Len(o) |->
         <<"[">> \o Name(Names[o[j]], di) \o <<"]", LF>>
         \o (IF h[o[j]] = 2 THEN X("k = ") \o X(Names[o[j]]) \o <<LF>> ELSE X("z = 1") \o <<LF>>)])
Num(h) == FoldLeft(LAMBDA a, x : (a * 31 + x) % 1000003, di * 7 + IF rev THEN 1 ELSE 0, h)
Loaded == Load(OptsOf(Opt), << [k |-> "text", t |-> TextOf(how)] >>).d
Steps(h) ==
  LET n == 1 + Cardinality({i \in 1..Len(h) : h[i] # 0}) IN
  << LoadStep(Opt, Str(TextOf(h))) >>
  \o (<<>> \o [s \in 1..n |-> [op |-> "getkey", s |-> s, n |-> "k"]])
  \o (<<>> \o [s \in 1..n |-> [op |-> "parentkeys", s |-> s]])
  \o (<<>> \o [s \in 1..n |-> [op |-> "children", s |-> s]])
  \o (<<>> \o [s \in 1..n |-> [op |-> "keylist", s |-> s]])
  \o << [op |-> "newkey", s |-> n, n |-> "k", v |-> "new"], Obs >>
Next == /\ Len(how) < Len(Names)
        /\ \E x \in 0..2 : how' = Append(how, x)
        /\ UNCHANGED <<di, rev>>
        /\ IF Len(how') = Len(Names) THEN EmitSome(Every, Num(how'), Steps(how')) ELSE TRUE
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
Is(a, b) == StartsWith(b, a \o TDelim(di))        \* a is an ancestor's name of b
There == {i \in 1..Len(how) : how[i] # 0}
NameAt(i) == Name(Names[i], di)
AncestorsOf(i) == SetToSortSeq({j \in There : Is(NameAt(j), NameAt(i))},
                               LAMBDA a, b : Len(NameAt(a)) > Len(NameAt(b)))
PosOf(d, i) == CHOOSE s \in 1..Len(d.secs) : d.secs[s].n = NameAt(i)
Finds(i) ==
  LET with == SelectSeq(<<i>> \o AncestorsOf(i), LAMBDA j : how[j] = 2) IN
  IF with = <<>> THEN <<>> ELSE X(Names[with[1]])

Inherits ==
  Len(how) = Len(Names) =>
  LET d == Loaded IN
  \A i \in There :
    LET p == FindKey(d, PosOf(d, i), X("k"))
        ps == ParentKeyPos(d, Ancestors(d, PosOf(d, i))) IN
    /\ Finds(i) = IF p[1] = 0 THEN <<>> ELSE d.secs[p[1]].keys[p[2]].v
    /\ (<<>> \o [j \in 1..Len(ps) |-> d.secs[ps[j][1]].n]) = <<>> \o [j \in 1..Len(AncestorsOf(i)) |-> NameAt(AncestorsOf(i)[j])]
    /\ {d.secs[s].n : s \in Range(Children(d, PosOf(d, i)))} = {NameAt(j) : j \in {j \in There : Is(NameAt(i), NameAt(j))}}
=============================================================================
