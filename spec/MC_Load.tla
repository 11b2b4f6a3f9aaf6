------------------------------- MODULE MC_Load ------------------------------
(***************************************************************************)
(* Texts of up to MaxLines lines, each of one of the forms below.  What a   *)
(* line means is written beside it; the document of the whole text is      *)
(* stated from these meanings alone (order of first appearance, last        *)
(* assignment, comments up to the element that takes them, first error) and *)
(* compared with what the reader's transitions yield.                       *)
(***************************************************************************)
EXTENDS MC

CONSTANTS MaxLines, Every

(* t text; k kind; a name; v value; c inline comment                       *)
F(t, k, a, v, c) == [t |-> t, k |-> k, a |-> X(a), v |-> X(v), c |-> X(c)]
Forms == <<
  F("[s]", "sec", "s", "", ""),
  F(" [t] # on t", "sec", "t", "", "# on t"),
  F("[DEFAULT]", "sec", "DEFAULT", "", ""),
  F("a=1", "key", "a", "1", ""),
  F("  a : two words ; on a", "key", "a", "two words", "; on a"),
  F("\"b=c\" = [x]", "key", "b=c", "[x]", ""),
  F("`b` =", "key", "b", "", ""),
  F("b == x:y", "key", "b", "= x:y", ""),
  F("# one", "com", "", "", "# one"),
  F("; two", "com", "", "", "; two"),
  F("", "blank", "", "", ""),
  F("no delimiter", "delim", "", "", ""),
  F("= nothing", "empty", "", "", ""),
  F("[open", "other", "", "", ""),
  F("\"open = 1", "other", "", "", "") >>
Skippable == {"delim", "empty"}

VARIABLES fs, skip, crlf
vars == <<fs, skip, crlf>>

End(i) == IF crlf THEN <<CR, LF>> ELSE <<LF>>
Text(s) == Flat(<<>> \o [i \in 1..Len(s) |-> X(Forms[s[i]].t) \o End(i)])
Opt == [skip |-> skip]

Init == fs = <<>> /\ skip \in BOOLEAN /\ crlf \in BOOLEAN
Num(s) == FoldLeft(LAMBDA a, x : a * 16 + x, IF skip THEN 1 ELSE 0, s)
Next == /\ Len(fs) < MaxLines
        /\ \E i \in 1..Len(Forms) : fs' = Append(fs, i)
        /\ UNCHANGED <<skip, crlf>>
        /\ EmitSome(Every, Num(fs'), << LoadStep(Opt, Str(Text(fs'))), Obs >>)
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
(* The meaning of the text. *)
IsBad(i) == LET k == Forms[fs[i]].k IN
            k \in {"delim", "empty", "other"} /\ ~(skip /\ k \in Skippable)
Bads == {i \in 1..Len(fs) : IsBad(i)}
BadAt == IF Bads = {} THEN Len(fs) + 1 ELSE Min(Bads)
L(i) == Forms[fs[i]]
Idx == <<>> \o [i \in 1..(BadAt - 1) |-> i]
Headers == SelectSeq(Idx, LAMBDA i : L(i).k = "sec")
CurSec(i) == LET hs == {j \in 1..i : L(j).k = "sec"} IN IF hs = {} THEN DefaultName ELSE L(Max(hs)).a
Names == Dedup(<<DefaultName>> \o [i \in 1..Len(Headers) |-> L(Headers[i]).a])
Takes(i) == L(i).k \in {"sec", "key"}
ComLine(i) == X(L(i).t) \o End(i)
ComAt(i) ==
  LET before == {j \in 1..(i - 1) : Takes(j)}
      from == IF before = {} THEN 1 ELSE Max(before) + 1
      cs == SelectSeq(Idx, LAMBDA j : j >= from /\ j < i /\ L(j).k = "com") IN
  Trim(Flat(<<>> \o [j \in 1..Len(cs) |-> ComLine(cs[j])]) \o L(i).c)
MeantKey(n, k) ==
  LET at == {i \in 1..(BadAt - 1) : L(i).k = "key" /\ CurSec(i) = n /\ L(i).a = k} IN
  [n |-> k, v |-> L(Max(at)).v, c |-> ComAt(Max(at))]
MeantSec(n) ==
  LET at == {i \in 1..(BadAt - 1) : L(i).k = "sec" /\ L(i).a = n}
      ks == SelectSeq(Idx, LAMBDA i : L(i).k = "key" /\ CurSec(i) = n)
      names == Dedup(<<>> \o [i \in 1..Len(ks) |-> L(ks[i]).a]) IN
  [n |-> n, c |-> IF at = {} THEN <<>> ELSE ComAt(Max(at)),
   keys |-> <<>> \o [i \in 1..Len(names) |-> MeantKey(n, names[i])]]
Meant == <<>> \o [i \in 1..Len(Names) |-> MeantSec(Names[i])]

Got1(d) == <<>> \o [i \in 1..Len(d.secs) |->
  [n |-> d.secs[i].n, c |-> d.secs[i].c,
   keys |-> <<>> \o [j \in 1..Len(d.secs[i].keys) |->
     [n |-> d.secs[i].keys[j].n, v |-> d.secs[i].keys[j].v, c |-> d.secs[i].keys[j].c]]]]

Loaded == Load(OptsOf(Opt), << [k |-> "text", t |-> Text(fs)] >>)
ReadsWhatIsMeant ==
  LET r == Loaded IN
  /\ Got1(r.d) = Meant
  /\ r.err = IF Bads = {} THEN "" ELSE L(BadAt).k
=============================================================================
