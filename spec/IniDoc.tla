------------------------------- MODULE IniDoc -------------------------------
(***************************************************************************)
(* The abstract document: what a *File of the library denotes, and every   *)
(* operation of its editing API as a function from document to document    *)
(* and result.                                                             *)
(*                                                                         *)
(*   Key     == [n, v, sh, ne, c, auto, bool, hs]                          *)
(*              name, value, shadow values, nested values, comment, is it  *)
(*              auto-numbered, is it a boolean (bare) key, handles (the    *)
(*              numbers of the pointers a caller keeps to it)              *)
(*   Section == [n, c, keys, raw, body, hs]                                *)
(*   Doc     == [o, secs]          options and sections in document order  *)
(*                                                                         *)
(* A section is addressed by its position in secs, a key by <<section      *)
(* position, key position>>; position 0 means "none".                      *)
(***************************************************************************)
EXTENDS Chars

DefaultName == X("DEFAULT")

DefaultOpts ==
  [ loose |-> FALSE, ins |-> FALSE, insSec |-> FALSE, insKey |-> FALSE,
    ignCont |-> FALSE, ignInline |-> FALSE, skip |-> FALSE, short |-> FALSE,
    bool |-> FALSE, shadow |-> FALSE, nested |-> FALSE, py |-> FALSE,
    spaceInline |-> FALSE, unescDQ |-> FALSE, unescCS |-> FALSE,
    unparse |-> <<>>, delims |-> <<"=", ":">>, wdelim |-> <<"=">>,
    child |-> <<".">>, keepQ |-> FALSE, nonuniq |-> FALSE, dupShadow |-> FALSE,
    block |-> TRUE ]

FoldsSec(o) == o.ins \/ o.insSec
FoldsKey(o) == o.ins \/ o.insKey
FoldSec(o, n) == IF FoldsSec(o) THEN Lower(n) ELSE n
FoldKey(o, n) == IF FoldsKey(o) THEN Lower(n) ELSE n
SecName(o, n) == FoldSec(o, IF n = <<>> THEN DefaultName ELSE n)

MkKey(n, v) == [n |-> n, v |-> v, sh |-> <<>>, ne |-> <<>>, c |-> <<>>,
                auto |-> FALSE, bool |-> FALSE, hs |-> {}]
MkSec(n) == [n |-> n, c |-> <<>>, keys |-> <<>>, raw |-> FALSE, body |-> <<>>, hs |-> {}]
MkDoc(o) == [o |-> o, secs |-> <<>>]

------------------------------------------------------------------------------
(* Lookups *)

(* Position of the k-th (from 0) section of (already folded) name n. *)
RECURSIVE NthFrom(_, _, _, _)
NthFrom(secs, i, n, k) ==
  LET j == IdxWhere(secs, i, LAMBDA s : s.n = n) IN
  IF j = 0 \/ k = 0 THEN j ELSE NthFrom(secs, j + 1, n, k - 1)
Nth(d, n, k) == NthFrom(d.secs, 1, n, k)
SecPositions(d, n) == SelectSeq([i \in 1..Len(d.secs) |-> i], LAMBDA i : d.secs[i].n = n)
FindSec(d, n) == Nth(d, SecName(d.o, n), 0)

(* Position of key with (already folded) name n in section position si. *)
OwnKey(d, si, n) == SelectInSeq(d.secs[si].keys, LAMBDA k : k.n = n)

(* Key lookup with inheritance: the nearest existing ancestor, repeatedly. *)
RECURSIVE FindKey(_, _, _), FindInAncestors(_, _, _)
FindKey(d, si, n) ==
  LET ki == OwnKey(d, si, FoldKey(d.o, n)) IN
  IF ki # 0 THEN <<si, ki>> ELSE FindInAncestors(d, d.secs[si].n, n)
FindInAncestors(d, sname, n) ==
  LET p == LastSub(sname, d.o.child) IN
  IF p = 0 THEN <<0, 0>>
  ELSE LET anc == Upto(sname, p - 1)
           sj  == FindSec(d, anc) IN
       IF sj = 0 THEN FindInAncestors(d, anc, n) ELSE FindKey(d, sj, n)

(* All existing ancestors, nearest first. *)
RECURSIVE AncestorsFrom(_, _)
AncestorsFrom(d, sname) ==
  LET p == LastSub(sname, d.o.child) IN
  IF p = 0 THEN <<>>
  ELSE LET anc == Upto(sname, p - 1)
           sj  == FindSec(d, anc) IN
       (IF sj = 0 THEN <<>> ELSE <<sj>>) \o AncestorsFrom(d, anc)
Ancestors(d, si) == AncestorsFrom(d, d.secs[si].n)

Children(d, si) ==
  LET prefix == d.secs[si].n \o d.o.child IN
  SelectSeq([i \in 1..Len(d.secs) |-> i], LAMBDA i : StartsWith(d.secs[i].n, prefix))

(* Non-empty values of a key: its own and those of its shadows. *)
ShadowValues(k) == SelectSeq(<<k.v>> \o k.sh, LAMBDA v : v # <<>>)

------------------------------------------------------------------------------
(* Edits.  Each returns [d, e, ...]: the new document, an error flag and   *)
(* the position(s) of the element concerned.                               *)

NewSection(d, name) ==
  IF name = <<>> THEN [d |-> d, e |-> TRUE, si |-> 0]
  ELSE LET n == FoldSec(d.o, name)
           i == Nth(d, n, 0) IN
       IF ~d.o.nonuniq /\ i # 0 THEN [d |-> d, e |-> FALSE, si |-> i]
       ELSE [d |-> [d EXCEPT !.secs = Append(@, MkSec(n))], e |-> FALSE,
             si |-> Len(d.secs) + 1]

NewRawSection(d, name, body) ==
  LET r == NewSection(d, name) IN
  IF r.e THEN r
  ELSE [r EXCEPT !.d.secs[r.si].raw = TRUE, !.d.secs[r.si].body = body]

RECURSIVE NewSections(_, _)
NewSections(d, names) ==
  IF names = <<>> THEN [d |-> d, e |-> FALSE]
  ELSE LET r == NewSection(d, Head(names)) IN
       IF r.e THEN [d |-> r.d, e |-> TRUE] ELSE NewSections(r.d, Tail(names))

(* Section(name): get, or create when absent. *)
GetOrNewSection(d, name) ==
  LET i == FindSec(d, name) IN
  IF i # 0 THEN [d |-> d, e |-> FALSE, si |-> i]
  ELSE NewSection(d, IF name = <<>> THEN DefaultName ELSE name)

(* SectionWithIndex(name, k): the k-th of that name, or a new one. *)
SectionWithIndex(d, name, k) ==
  LET i == Nth(d, SecName(d.o, name), k) IN
  IF i # 0 THEN [d |-> d, e |-> FALSE, si |-> i] ELSE NewSection(d, name)

DropAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

DeleteSection(d, name) ==
  LET n == SecName(d.o, name) IN
  [d EXCEPT !.secs = SelectSeq(@, LAMBDA s : s.n # n)]

DeleteSectionWithIndex(d, name, k) ==
  IF ~d.o.nonuniq /\ k # 0 THEN [d |-> d, e |-> TRUE]
  ELSE LET i == Nth(d, SecName(d.o, name), k) IN
       [d |-> IF i = 0 THEN d ELSE [d EXCEPT !.secs = DropAt(@, i)], e |-> FALSE]

SetSecComment(d, si, c) == [d EXCEPT !.secs[si].c = c]
SetBody(d, si, body) == IF d.secs[si].raw THEN [d EXCEPT !.secs[si].body = body] ELSE d

(* A further value for an existing key, when shadows are kept. *)
AddShadowAt(d, si, ki, val) ==
  LET k == d.secs[si].keys[ki] IN
  IF k.auto \/ k.bool THEN [d |-> d, e |-> TRUE]
  ELSE IF ~d.o.dupShadow /\ (k.v = val \/ \E i \in 1..Len(k.sh) : k.sh[i] = val)
       THEN [d |-> d, e |-> FALSE]
       ELSE [d |-> [d EXCEPT !.secs[si].keys[ki].sh = Append(@, val)], e |-> FALSE]

NewKey(d, si, name, val) ==
  IF name = <<>> THEN [d |-> d, e |-> TRUE, si |-> si, ki |-> 0]
  ELSE LET n  == FoldKey(d.o, name)
           ki == OwnKey(d, si, n) IN
       IF ki = 0
       THEN [d |-> [d EXCEPT !.secs[si].keys = Append(@, MkKey(n, val))], e |-> FALSE,
             si |-> si, ki |-> Len(d.secs[si].keys) + 1]
       ELSE IF d.o.shadow
            THEN LET r == AddShadowAt(d, si, ki, val) IN
                 [d |-> r.d, e |-> r.e, si |-> si, ki |-> ki]
            ELSE [d |-> [d EXCEPT !.secs[si].keys[ki].v = val], e |-> FALSE,
                  si |-> si, ki |-> ki]

NewBooleanKey(d, si, name) ==
  LET r == NewKey(d, si, name, X("true")) IN
  IF r.e THEN r ELSE [r EXCEPT !.d.secs[si].keys[r.ki].bool = TRUE]

(* Key(name): get (own or inherited), or create empty when absent. *)
GetOrNewKey(d, si, name) ==
  LET p == FindKey(d, si, name) IN
  IF p[1] # 0 THEN [d |-> d, e |-> FALSE, si |-> p[1], ki |-> p[2]]
  ELSE NewKey(d, si, name, <<>>)

DeleteKey(d, si, name) ==
  LET ki == OwnKey(d, si, FoldKey(d.o, name)) IN
  IF ki = 0 THEN d ELSE [d EXCEPT !.secs[si].keys = DropAt(@, ki)]

SetValueAt(d, si, ki, v) == [d EXCEPT !.secs[si].keys[ki].v = v]
SetKeyComment(d, si, ki, c) == [d EXCEPT !.secs[si].keys[ki].c = c]

AddShadow(d, si, ki, val) ==
  IF ~d.o.shadow THEN [d |-> d, e |-> TRUE] ELSE AddShadowAt(d, si, ki, val)

AddNestedAt(d, si, ki, val) ==
  LET k == d.secs[si].keys[ki] IN
  IF k.auto \/ k.bool THEN [d |-> d, e |-> TRUE]
  ELSE [d |-> [d EXCEPT !.secs[si].keys[ki].ne = Append(@, val)], e |-> FALSE]
AddNested(d, si, ki, val) ==
  IF ~d.o.nested THEN [d |-> d, e |-> TRUE] ELSE AddNestedAt(d, si, ki, val)

------------------------------------------------------------------------------
(* What the API shows of a document. *)

KeyView(k) == [n |-> k.n, v |-> k.v, sh |-> ShadowValues(k), ne |-> k.ne, c |-> k.c]
SecView(s) == [n |-> s.n, c |-> s.c, body |-> Trim(s.body),
               keys |-> <<>> \o [i \in 1..Len(s.keys) |-> KeyView(s.keys[i])]]
View(d) == <<>> \o [i \in 1..Len(d.secs) |-> SecView(d.secs[i])]

(* The same, names and values only. *)
PlainSec(s) == [n |-> s.n, keys |-> <<>> \o [i \in 1..Len(s.keys) |-> <<s.keys[i].n, s.keys[i].v>>]]
Plain(d) == <<>> \o [i \in 1..Len(d.secs) |-> PlainSec(d.secs[i])]

------------------------------------------------------------------------------
(* Well-formedness: holds in every reachable document. *)

UniqueKeys(s) == \A i, j \in 1..Len(s.keys) : i # j => s.keys[i].n # s.keys[j].n
Folded(d) ==
  /\ FoldsSec(d.o) => \A i \in 1..Len(d.secs) : Lower(d.secs[i].n) = d.secs[i].n
  /\ FoldsKey(d.o) => \A i \in 1..Len(d.secs) : \A j \in 1..Len(d.secs[i].keys) :
                        Lower(d.secs[i].keys[j].n) = d.secs[i].keys[j].n
WellFormed(d) ==
  /\ ~d.o.nonuniq => \A i, j \in 1..Len(d.secs) : i # j => d.secs[i].n # d.secs[j].n
  /\ \A i \in 1..Len(d.secs) :
       /\ d.secs[i].n # <<>>
       /\ UniqueKeys(d.secs[i])
       /\ \A j \in 1..Len(d.secs[i].keys) :
            LET k == d.secs[i].keys[j] IN
            /\ k.n # <<>>
            /\ k.sh # <<>> => d.o.shadow
            /\ (~d.o.dupShadow => \A a, b \in 1..Len(k.sh) : a # b => k.sh[a] # k.sh[b])
  /\ Folded(d)

=============================================================================
