---------------------------- MODULE MC_RoundTrip ----------------------------
(***************************************************************************)
(* Saving and loading in the specification: for every value of up to MaxLen *)
(* characters that matter to the reader or the writer, every set of reading *)
(* options and several formats, the text that the writer makes of a         *)
(* document holding the value is read back as the same document.            *)
(***************************************************************************)
EXTENDS MC

CONSTANTS MaxLen, Every

Alphabet == <<"a", " ", "=", "#", ";", "\"", "'", "`", "\\", "\n", "[", "%", ":">>
ValueOpts == <<"ignInline", "spaceInline", "unescCS", "unescDQ", "keepQ", "ignCont", "skip", "bool">>
Fmts == << [prettySection |-> TRUE, prettyFormat |-> TRUE],
           [prettyEqual |-> TRUE, defaultHeader |-> TRUE],
           [left |-> "", right |-> ""] >>

VARIABLES v, on, f
vars == <<v, on, f>>

Opt == [x \in {ValueOpts[i] : i \in on} |-> TRUE] @@ [none |-> TRUE]
Num == FoldLeft(LAMBDA a, c : (a * 13 + (CHOOSE i \in 1..Len(Alphabet) : Alphabet[i] = c)) % 100003, 1, v')
       + FoldSet(LAMBDA i, a : a + i * i, 0, on)

(* No notation for these. *)
Writable(t) == IdxSub(t, 1, TDQ) = 0

Init == v = <<>> /\ on \in SUBSET (1..Len(ValueOpts)) /\ f \in 1..Len(Fmts)
Steps(val) ==
  << LoadStep(Opt, "c = 3\n[s]\nz = 1\n"),
     [op |-> "newkey", s |-> 2, n |-> "k=y", v |-> Str(val)],
     [op |-> "newkey", s |-> 2, n |-> "a", v |-> Str(val)],
     [op |-> "setval", s |-> 1, key |-> "c", v |-> Str(val)],
     [op |-> "rt", g |-> Fmts[f], cmp |-> "plain"] >>
Next == /\ Len(v) < MaxLen
        /\ \E c \in {Alphabet[i] : i \in 1..Len(Alphabet)} : v' = Append(v, c)
        /\ UNCHANGED <<on, f>>
        /\ IF Writable(v') THEN EmitSome(Every, Num, Steps(v')) ELSE TRUE
Spec == Init /\ [][Next]_vars

Doc ==
  LET d0 == Load(OptsOf(Opt), << [k |-> "text", t |-> X("c = 3\n[s]\nz = 1\n")] >>).d
      d1 == NewKey(d0, 2, X("k=y"), v).d
      d2 == NewKey(d1, 2, X("a"), v).d IN
  SetValueAt(d2, 1, 1, v)
SavedIsLoaded ==
  Writable(v) =>
  LET d == Doc
      t == WriteDoc(d, FmtOf(Fmts[f]), <<>>)
      r == Load(d.o, << [k |-> "text", t |-> t] >>) IN
  /\ r.err = ""
  /\ Plain(r.d) = Plain(d)
  /\ WriteDoc(r.d, FmtOf(Fmts[f]), <<>>) = t
=============================================================================
