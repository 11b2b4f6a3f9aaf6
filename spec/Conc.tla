-------------------------------- MODULE Conc --------------------------------
(***************************************************************************)
(* Conformance of concurrent histories: the calls of several goroutines,   *)
(* each with the instants at which it began (inv) and returned (resp), have *)
(* to be explainable as atomic steps of IniConc, one per call, at an        *)
(* instant in between; the final document included.  A behaviour of this   *)
(* module is one attempt to put the calls in an order; a history for which  *)
(* some behaviour takes in all calls is reported with a LIN line.           *)
(*                                                                         *)
(* Objects are told apart by numbers in the history; sm and km say which   *)
(* object of the specification a section or key number stands for (0: not  *)
(* seen yet).                                                              *)
(***************************************************************************)
EXTENDS IniConc, Json

CONSTANT File
Cases == ndJsonDeserialize(File)

VARIABLES cid, done, h, sm, km
vars == <<cid, done, h, sm, km>>

Evs == Cases[cid].evs
N == Len(Evs)

Init ==
  /\ cid \in 1..Len(Cases)
  /\ done = {}
  /\ h = ConcInit(OptsOf(Cases[cid].o))
  /\ sm = <<>> \o [i \in 1..Cases[cid].ns |-> 0]
  /\ km = <<>> \o [i \in 1..Cases[cid].nk |-> 0]

(* Numbers ns now stand for objects os: [ok, m].                           *)
RECURSIVE Bind(_, _, _)
Bind(m, ns, os) ==
  IF Len(ns) # Len(os) THEN [ok |-> FALSE, m |-> m]
  ELSE IF ns = <<>> THEN [ok |-> TRUE, m |-> m]
  ELSE LET n == Head(ns) x == Head(os) IN
       IF n # 0 /\ (m[n] = x \/ (m[n] = 0 /\ \A i \in 1..Len(m) : m[i] # x))
       THEN Bind([m EXCEPT ![n] = x], Tail(ns), Tail(os))
       ELSE [ok |-> FALSE, m |-> m]

MayBeNext(i) == \A j \in (1..N) \ done : j # i => ~(Evs[j].resp < Evs[i].inv)

Target(ev) ==
  CASE ev.op \in ConcSecOps -> sm[ev.on]
    [] ev.op \in ConcKeyOps -> km[ev.on]
    [] OTHER -> 1

(* The final look at everything, when no other call is left.               *)
FinalOk(ev) ==
  LET b == Bind(sm, ev.ss, h.list) IN
  /\ b.ok
  /\ \A i \in 1..Len(ev.sd) :
       LET x == b.m[i] d == ev.sd[i] IN
       /\ x # 0
       /\ X(d.n) = h.secs[x].n
       /\ X(d.body) = Trim(h.secs[x].body)
       /\ XS(d.names) = [j \in 1..Len(h.secs[x].keys) |-> h.keys[h.secs[x].keys[j]].n]
       /\ Bind(km, d.keys, h.secs[x].keys).ok
       /\ SameConc("hash", {<<h.keys[k].n, h.keys[k].v>> : k \in Range(h.secs[x].keys)}, d.hash)
  /\ \A i \in 1..Len(ev.kd) :
       LET d == ev.kd[i] IN
       km[i] # 0 =>
       /\ X(d.n) = h.keys[km[i]].n
       /\ X(d.v) = h.keys[km[i]].v
       /\ XS(d.sh) = ShadowValues(h.keys[km[i]])
       /\ XS(d.ne) = h.keys[km[i]].ne

Step(i) ==
  LET ev == Evs[i] IN
  IF ev.op = "final"
  THEN /\ done = (1..N) \ {i}
       /\ FinalOk(ev)
       /\ PrintT("LIN " \o ToString(Cases[cid].id))
       /\ done' = 1..N
       /\ UNCHANGED <<cid, h, sm, km>>
  ELSE /\ Target(ev) # 0
       /\ LET r == Atom(h, ev, Target(ev))
              bs == Bind(sm, ev.ss, r.ss)
              bk == Bind(km, ev.ks, r.ks) IN
          /\ SameConc(ev.op, r.out, ev.out)
          /\ bs.ok /\ bk.ok
          /\ done' = done \cup {i}
          /\ h' = r.h /\ sm' = bs.m /\ km' = bk.m
          /\ UNCHANGED cid

Next == \E i \in 1..N : i \notin done /\ MayBeNext(i) /\ Step(i)

Spec == Init /\ [][Next]_vars

Inv == ConcWellFormed(h)
=============================================================================
