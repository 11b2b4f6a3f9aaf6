--------------------------------- MODULE MC ---------------------------------
(***************************************************************************)
(* What the models share.  A model explores all behaviours of a small       *)
(* instance of the specification; its invariants state properties without  *)
(* using the operators they are about; and it prints histories (calls      *)
(* without results), which the driver executes on the real library and     *)
(* Trace decides.                                                           *)
(***************************************************************************)
EXTENDS IniProps, Json, SequencesExt, FiniteSetsExt

Str(t) == FoldLeft(LAMBDA a, c : a \o c, "", t)
Emit(steps) == PrintT("CASE " \o ToJson(steps))

(* One history in n, chosen by a number that belongs to it.                *)
EmitSome(n, i, steps) == IF i % n = 0 THEN Emit(steps) ELSE TRUE

NoOpts == [none |-> TRUE]
LoadStep(o, t) == [op |-> "load", o |-> o, srcs |-> << [k |-> "text", t |-> t] >>]
Obs == [op |-> "obs"]

Pretty == [prettySection |-> TRUE, prettyFormat |-> TRUE]

(* The elements of s at their first places.                                *)
Dedup(s) == LET keep == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : \A j \in 1..(i - 1) : s[j] # s[i])
            IN <<>> \o [i \in 1..Len(keep) |-> s[keep[i]]]
Where(s, Test(_)) == SelectSeq(<<>> \o [i \in 1..Len(s) |-> i], LAMBDA i : Test(i))
=============================================================================
