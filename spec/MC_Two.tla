------------------------------- MODULE MC_Two -------------------------------
(***************************************************************************)
(* Two documents loaded from the same bytes, and what callers keep from     *)
(* them: lists they were handed (and may overwrite), sections and keys.     *)
(* All histories of up to Depth steps.  Each document must be what its own  *)
(* part of the history makes of it, a list what it was when it was handed   *)
(* out, and a key or section that is kept the one it was.                   *)
(***************************************************************************)
EXTENDS MC

CONSTANTS Depth, Every

Opt == [shadow |-> TRUE, nested |-> TRUE]
Text == "a = 1\na = 2\n[s]\nb =\n  n1\n[s.t]\na = 3\n"
Same2 == [op |-> "load", o |-> Opt, srcs |-> << [k |-> "text", t |-> Text, via |-> "same"] >>]
Begin == << LoadStep(Opt, Text), [op |-> "swap"], Same2 >>

VARIABLES hist, st, cur, own, seen, grabbed, num
vars == <<hist, st, cur, own, seen, grabbed, num>>
(* cur: which of the two is in front; own[i]: the calls made on document i; *)
(* seen: what the lists showed; grabbed: <<document, call>> of the handles  *)

Lists1 == << [what |-> "seclist"], [what |-> "sections"], [what |-> "keylist", s |-> 1], [what |-> "keys", s |-> 1],
             [what |-> "hash", s |-> 1], [what |-> "children", s |-> 2], [what |-> "secsby", n |-> "s"],
             [what |-> "parentkeys", s |-> 3], [what |-> "nested", s |-> 2, key |-> "b"], [what |-> "shadows", s |-> 1, key |-> "a"] >>
Edits == << [op |-> "newkey", s |-> 1, n |-> "c", v |-> "4"], [op |-> "setval", s |-> 1, key |-> "a", v |-> "5"],
            [op |-> "delkey", s |-> 1, n |-> "a"], [op |-> "newsec", n |-> "s.u"], [op |-> "delsec", n |-> "s"],
            [op |-> "newkey", s |-> 1, n |-> "a", v |-> "6"], [op |-> "addnested", s |-> 2, key |-> "b", v |-> "n2"] >>
Grabs == << [op |-> "grab", s |-> 1, key |-> "a"], [op |-> "grab", s |-> 2] >>
Through(h) == IF grabbed[h].key THEN << [op |-> "setval", h |-> h, v |-> "7"] >>
              ELSE << [op |-> "newkey", h |-> h, n |-> "d", v |-> "8"], [op |-> "delkey", h |-> h, n |-> "b"] >>
AllEvents ==
  Edits \o << [op |-> "swap"] >> \o Grabs
  \o (<<>> \o [i \in 1..Len(Lists1) |-> Lists1[i] @@ [op |-> "hold"]])
  \o (<<>> \o [i \in 1..Len(Lists1) |-> Lists1[i] @@ [op |-> "spoil"]])
  \o (IF grabbed = <<>> THEN <<>> ELSE Through(Len(grabbed)))

Init == /\ hist = <<>> /\ cur = 2 /\ own = << <<>>, <<>> >> /\ seen = <<>> /\ grabbed = <<>> /\ num = 5
        /\ st = FoldLeft(LAMBDA s, ev : Call(s, ev).st, Init0, Begin)

(* The document a call is about.                                           *)
About(ev) == IF "h" \in DOMAIN ev THEN grabbed[ev.h].doc ELSE cur
Next == /\ Len(hist) < Depth
        /\ LET es == AllEvents IN \E e \in 1..Len(es) : LET ev == es[e] r == Call(st, ev) IN
             /\ Enabled(st, ev)
             /\ num' = (num * 67 + e) % 1000003
             /\ hist' = Append(hist, ev)
             /\ st' = r.st
             /\ cur' = IF ev.op = "swap" THEN 3 - cur ELSE cur
             /\ own' = IF ev.op \in {"swap", "hold", "spoil"} THEN own ELSE [own EXCEPT ![About(ev)] = Append(@, ev)]
             /\ seen' = IF ev.op = "hold" THEN Append(seen, r.out) ELSE seen
             /\ grabbed' = IF ev.op = "grab" THEN Append(grabbed, [doc |-> cur, key |-> "key" \in DOMAIN ev]) ELSE grabbed
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
(* A document by itself: handles are counted anew there.                   *)
RECURSIVE Alone(_, _, _)
Alone(s, evs, map) ==
  IF evs = <<>> THEN s
  ELSE LET ev == Head(evs)
           here == IF "h" \in DOMAIN ev THEN [ev EXCEPT !.h = map[@]] ELSE ev IN
       Alone(Call(s, here).st, Tail(evs), map)
Nums(i) == [h \in 1..Len(grabbed) |-> Cardinality({g \in 1..h : grabbed[g].doc = i})]
ByItself(i) == Alone(Call(Init0, LoadStep(Opt, Text)).st, own[i], Nums(i)).d

Independent == /\ View(IF cur = 1 THEN st.d ELSE st.alt.d) = View(ByItself(1))
               /\ View(IF cur = 2 THEN st.d ELSE st.alt.d) = View(ByItself(2))
Snapshots == \A i \in 1..Len(seen) : Call(st, [op |-> "held", i |-> i]).out = seen[i]

Look == << Obs >> \o (<<>> \o [i \in 1..Len(seen) |-> [op |-> "held", i |-> i]])
        \o << [op |-> "seclist"], [op |-> "hash", s |-> 1], [op |-> "swap"], Obs, [op |-> "seclist"], [op |-> "intact"] >>
Histories == hist # <<>> => EmitSome(Every, num, Begin \o hist \o Look)
=============================================================================
