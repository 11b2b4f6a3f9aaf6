----------------------------- MODULE MC_Entries -----------------------------
(***************************************************************************)
(* Texts of up to MaxLines lines with auto-numbered, boolean and nested     *)
(* entries and a section whose lines are not parsed.  Stated from the       *)
(* lines: the n-th dash under a header is key #n; indented lines after a    *)
(* key without value are its nested values and no keys; the lines of the    *)
(* unparsed section are its body; everything else is as if these lines      *)
(* were absent.  And what is saved is loaded again as the same entries.     *)
(***************************************************************************)
EXTENDS MC

CONSTANTS MaxLines, Every

(* the text, its kind, name and value                                      *)
F(t, k, a, v) == [t |-> X(t), s |-> t, k |-> k, a |-> X(a), v |-> X(v)]
Forms == <<
  F("[s]", "sec", "s", ""),
  F("[raw]", "sec", "raw", ""),
  F("- = 1", "auto", "", "1"),
  F("- = 2", "auto", "", "2"),
  F("on", "bool", "on", "true"),
  F("x", "bool", "x", "true"),
  F("k =", "key", "k", ""),
  F("k2 = v", "key", "k2", "v"),
  F("  in = 1", "in", "", "in = 1"),
  F("\tin", "in", "", "in"),
  F("# c", "com", "", ""),
  F("", "blank", "", "") >>

VARIABLE fs
L(i) == Forms[fs[i]]
Text(s) == Flat(<<>> \o [i \in 1..Len(s) |-> Forms[s[i]].t \o <<LF>>])
Opt == [bool |-> TRUE, nested |-> TRUE, unparse |-> <<"raw">>]

Num == FoldLeft(LAMBDA a, x : a * 12 + x, 1, fs)
Init == fs = <<>>
Next == /\ Len(fs) < MaxLines
        /\ \E i \in 1..Len(Forms) : fs' = Append(fs, i)
Spec == Init /\ [][Next]_fs

N == Len(fs)
HeaderOf(i) == LET hs == {j \in 1..i : L(j).k = "sec"} IN IF hs = {} THEN 0 ELSE Max(hs)
SecOf(i) == IF HeaderOf(i) = 0 THEN DefaultName ELSE L(HeaderOf(i)).a
InRaw(i) == SecOf(i) = X("raw") /\ L(i).k # "sec"
(* An indented line belongs to the last key with "=" and no value, when     *)
(* nothing but what is no value line of its own came in between.            *)
LastValue(i) == LET js == {j \in 1..(i - 1) : L(j).k \in {"sec", "key", "auto"} /\ ~InRaw(j)} IN
                IF js = {} THEN 0 ELSE Max(js)
Nested(i) == /\ L(i).k = "in" /\ LastValue(i) # 0
             /\ L(LastValue(i)).k \in {"key"} /\ L(LastValue(i)).v = <<>>

(* An indented line that is not nested is an ordinary line.                *)
Plainly(i) == IF L(i).k = "in" /\ ~Nested(i) /\ ~InRaw(i)
              THEN IF L(i).s = "\tin" THEN F("in", "bool", "in", "true") ELSE F("in = 1", "key", "in", "1")
              ELSE L(i)
RECURSIVE Number(_)
Number(i) == Cardinality({j \in (HeaderOf(i) + 1)..i : L(j).k = "auto"})
NameOf(i) == IF Plainly(i).k = "auto" THEN X("#") \o Dec(Number(i)) ELSE Plainly(i).a
IsKey(i) == ~InRaw(i) /\ Plainly(i).k \in {"key", "auto", "bool"}

(* A name used in one of the ways only: the statement is about those.      *)
OneWay ==
  /\ \A i, j \in 1..N : IsKey(i) /\ IsKey(j) /\ SecOf(i) = SecOf(j) /\ NameOf(i) = NameOf(j)
       => Plainly(i).k = Plainly(j).k
  /\ \A i, j \in 1..N : IsKey(i) /\ IsKey(j) /\ i < j /\ SecOf(i) = SecOf(j) /\ NameOf(i) = NameOf(j)
       => (Plainly(i).v = <<>>) = (Plainly(j).v = <<>>)
  /\ \A i \in 1..N : L(i).k = "in" => ~InRaw(i)

MeantKey(n, name) ==
  LET at == {i \in 1..N : IsKey(i) /\ SecOf(i) = n /\ NameOf(i) = name}
      last == Max(at)
      ns == Where(fs, LAMBDA i : Nested(i) /\ LastValue(i) \in at) IN
  [n |-> name, v |-> Plainly(last).v, ne |-> <<>> \o [i \in 1..Len(ns) |-> L(ns[i]).v]]
MeantSec(n) ==
  LET ks == Where(fs, LAMBDA i : IsKey(i) /\ SecOf(i) = n)
      names == Dedup(<<>> \o [i \in 1..Len(ks) |-> NameOf(ks[i])])
      body == Where(fs, LAMBDA i : InRaw(i) /\ SecOf(i) = n /\ L(i).k \notin {"com", "blank"}) IN
  [n |-> n,
   body |-> Trim(Flat(<<>> \o [i \in 1..Len(body) |-> TrimLeft(L(body[i]).t) \o <<LF>>])),
   keys |-> <<>> \o [i \in 1..Len(names) |-> MeantKey(n, names[i])]]
Meant ==
  LET hs == Where(fs, LAMBDA i : L(i).k = "sec")
      ns == Dedup(<<DefaultName>> \o [i \in 1..Len(hs) |-> L(hs[i]).a]) IN
  <<>> \o [i \in 1..Len(ns) |-> MeantSec(ns[i])]

Shown(d) == <<>> \o [i \in 1..Len(d.secs) |->
  [n |-> d.secs[i].n, body |-> Trim(d.secs[i].body),
   keys |-> <<>> \o [j \in 1..Len(d.secs[i].keys) |->
     LET k == d.secs[i].keys[j] IN [n |-> k.n, v |-> k.v, ne |-> k.ne]]]]

Loaded == Load(OptsOf(Opt), << [k |-> "text", t |-> Text(fs)] >>)
ReadsWhatIsMeant == OneWay => (Loaded.err = "" /\ Shown(Loaded.d) = Meant)
SavedIsLoaded ==
  OneWay =>
  LET t == WriteDoc(Loaded.d, FmtOf(Pretty), <<>>)
      r == Load(Loaded.d.o, << [k |-> "text", t |-> t] >>) IN
  r.err = "" /\ Entries(r.d) = Entries(Loaded.d)
(* The histories: printed when the state is looked at. *)
Printed == EmitSome(Every, Num, << LoadStep(Opt, Str(Text(fs))), Obs >>
                              \o (IF OneWay THEN << [op |-> "rt", g |-> Pretty, cmp |-> "entries"] >> ELSE <<>>))
=============================================================================
