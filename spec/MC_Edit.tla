------------------------------- MODULE MC_Edit ------------------------------
(***************************************************************************)
(* All histories of up to Depth edits over few names.  What the document    *)
(* must be is stated from the history alone: an element exists if it was    *)
(* made (or asked for with get-or-create) and not deleted since; elements   *)
(* are listed in the order in which they were made; a key has the value it  *)
(* was given last.  Modes: plain, names folded, non-unique sections.        *)
(***************************************************************************)
EXTENDS MC

CONSTANTS Depth, Every, Modes

Opt(m) == CASE m = "plain" -> NoOpts
            [] m = "fold" -> [ins |-> TRUE]
            [] m = "foldsec" -> [insSec |-> TRUE]
            [] m = "foldkey" -> [insKey |-> TRUE]
            [] m = "many" -> [nonuniq |-> TRUE]

VARIABLES mode, hist, st
vars == <<mode, hist, st>>

SecNames == IF mode \in {"plain", "many"} THEN {"a", "b"} ELSE {"a", "A"}
KeyNames == IF mode \in {"plain", "many"} THEN {"x", "y"} ELSE {"x", "X"}

FileEvents ==
  [op : {"newsec", "delsec", "section"}, n : SecNames]
  \cup [op : {"section", "delsec"}, n : {""}]
  \cup (IF mode = "many" THEN [op : {"delsecidx"}, n : SecNames, k : {0, 1}] \cup [op : {"secidx"}, n : SecNames, k : {0, 1}] ELSE {})
SecEvents(s) ==
  [op : {"newkey"}, s : {s}, n : KeyNames, v : {"1", "2"}]
  \cup [op : {"key", "delkey"}, s : {s}, n : KeyNames]
KeyEvents(s) == [op : {"setval"}, s : {s}, key : {Str(st.d.secs[s].keys[i].n) : i \in 1..Len(st.d.secs[s].keys)}, v : {"3"}]
Events == FileEvents \cup UNION {SecEvents(s) \cup KeyEvents(s) : s \in 1..Len(st.d.secs)}

(* What is printed: the calls, and a full look at the end.                 *)
Look == << Obs, [op |-> "seclist"] >>
        \o (<<>> \o [s \in 1..Len(st'.d.secs) |-> [op |-> "hash", s |-> s]])
        \o (<<>> \o [s \in 1..Len(st'.d.secs) |-> [op |-> "keylist", s |-> s]])
Begin == << LoadStep(Opt(mode), "") >>

(* Histories keep the identity of a section: the number of its creation.   *)
(* ids: numbers of the sections that are there, in order.                  *)
VARIABLES ids, born, num
all == <<mode, hist, st, ids, born, num>>

Init == /\ mode \in Modes /\ hist = <<>> /\ st = Call(Init0, LoadStep(Opt(mode), "")).st
        /\ num = 7 /\ ids = <<1>> /\ born = <<FoldSec(OptsOf(Opt(mode)), DefaultName)>>

Named(n) == FoldSec(st.d.o, IF n = "" THEN DefaultName ELSE X(n))
IdsNamed(n) == SelectSeq(ids, LAMBDA i : born[i] = n)
Make(n) == ids' = Append(ids, Len(born) + 1) /\ born' = Append(born, n)
Keep == ids' = ids /\ born' = born
Drop(S) == ids' = SelectSeq(ids, LAMBDA i : i \notin S) /\ born' = born

Follow(ev) ==
  CASE ev.op = "newsec" -> IF IdsNamed(Named(ev.n)) # <<>> /\ mode # "many" THEN Keep ELSE Make(Named(ev.n))
    [] ev.op = "section" -> IF IdsNamed(Named(ev.n)) # <<>> THEN Keep ELSE Make(Named(ev.n))
    [] ev.op = "secidx" -> IF Len(IdsNamed(Named(ev.n))) > ev.k THEN Keep ELSE Make(Named(ev.n))
    [] ev.op = "delsec" -> Drop(Range(IdsNamed(Named(ev.n))))
    [] ev.op = "delsecidx" -> IF Len(IdsNamed(Named(ev.n))) > ev.k
                              THEN Drop({IdsNamed(Named(ev.n))[ev.k + 1]}) ELSE Keep
    [] OTHER -> Keep

(* The history names sections by identity.                                 *)
Sign(ev) == IF "s" \in DOMAIN ev THEN [ev |-> ev, id |-> ids[ev.s]] ELSE [ev |-> ev, id |-> 0]
Calls(h) == <<>> \o [i \in 1..Len(h) |-> h[i].ev]
Next == /\ Len(hist) < Depth
        /\ LET es == SetToSeq(Events) IN \E e \in 1..Len(es) : LET ev == es[e] IN
             /\ num' = (num * 61 + e) % 1000003
             /\ hist' = Append(hist, Sign(ev))
             /\ st' = Call(st, ev).st
             /\ Follow(ev)
        /\ UNCHANGED mode
        /\ IF Len(hist') = Depth THEN EmitSome(Every, num', Begin \o Calls(hist') \o Look) ELSE TRUE
Spec == Init /\ [][Next]_all

------------------------------------------------------------------------------
KeyOfEv(h) == FoldKey(st.d.o, X(IF h.ev.op = "setval" THEN h.ev.key ELSE h.ev.n))
OnKey(h, id, k) == h.id = id /\ KeyOfEv(h) = k
LastDel(id, k) == LET S == {i \in 1..Len(hist) : hist[i].ev.op = "delkey" /\ OnKey(hist[i], id, k)}
                  IN IF S = {} THEN 0 ELSE Max(S)
MadeAt(id, k) == LET S == {i \in 1..Len(hist) : i > LastDel(id, k) /\ hist[i].ev.op \in {"newkey", "key"} /\ OnKey(hist[i], id, k)}
                 IN IF S = {} THEN 0 ELSE Min(S)
Given(id, k) == LET S == {i \in 1..Len(hist) : i >= MadeAt(id, k) /\ hist[i].ev.op \in {"newkey", "setval"} /\ OnKey(hist[i], id, k)}
                IN IF S = {} THEN <<>> ELSE X(hist[Max(S)].ev.v)
AllKeys == {FoldKey(st.d.o, X(n)) : n \in KeyNames}
MeantKeys(id) ==
  LET there == {k \in AllKeys : MadeAt(id, k) # 0}
      order == SetToSortSeq(there, LAMBDA a, b : MadeAt(id, a) < MadeAt(id, b)) IN
  <<>> \o [i \in 1..Len(order) |-> <<order[i], Given(id, order[i])>>]
Meant == <<>> \o [i \in 1..Len(ids) |-> [n |-> born[ids[i]], keys |-> MeantKeys(ids[i])]]

IsWhatHistorySays == Plain(st.d) = Meant
(* Listings and lookups agree. *)
Agree ==
  LET d == st.d IN
  /\ WellFormed(d)
  /\ \A n \in SecNames : LET S == {i \in 1..Len(d.secs) : d.secs[i].n = Named(n)}
                             got == Call(st, [op |-> "getsec", n |-> n]).out IN
       /\ got.e = (S = {})
       /\ S # {} => got.p = Min(S)
  /\ \A s \in 1..Len(d.secs) : \A k \in KeyNames :
       Call(st, [op |-> "haskey", s |-> s, n |-> k]).out =
         (\E i \in 1..Len(d.secs[s].keys) : d.secs[s].keys[i].n = FoldKey(d.o, X(k)))
=============================================================================
