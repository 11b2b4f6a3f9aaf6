------------------------------- MODULE IniConc ------------------------------
(***************************************************************************)
(* The document as shared by several goroutines.  Sections and keys are    *)
(* objects with an identity, which callers keep and use also after the     *)
(* object was taken out of the document.  Every call is one atomic step:   *)
(* Atom(h, ev, x) is the heap and the result after call ev on object x.    *)
(*                                                                         *)
(*   h == [o, list, secs, keys]                                            *)
(*        options; the ids of the sections of the document in order; all   *)
(*        sections and all keys ever created, by id                        *)
(*   section == [n, keys, raw, body]   keys: ids, in order                 *)
(*   key     == [n, v, sh, ne, bool, sec]                                  *)
(*                                                                         *)
(* Section names are unique; names are folded as in IniDoc.  What the       *)
(* library composes of several calls is not a step here: looking up keys   *)
(* in child sections, Must..., reading a value with references, writing,   *)
(* mapping.                                                                *)
(***************************************************************************)
EXTENDS IniApi

ConcSec(n) == [n |-> n, keys |-> <<>>, raw |-> FALSE, body |-> <<>>]
ConcKey(n, v, s) == [n |-> n, v |-> v, sh |-> <<>>, ne |-> <<>>, bool |-> FALSE, sec |-> s]

(* A new document holds the default section.                               *)
ConcInit(o) == [o |-> o, list |-> <<1>>, secs |-> <<ConcSec(FoldSec(o, DefaultName))>>, keys |-> <<>>]

CRes(h, out, ss, ks) == [h |-> h, out |-> out, ss |-> ss, ks |-> ks]
Out(h, out) == CRes(h, out, <<>>, <<>>)

(* The id of the section / of the key of x with that (folded) name, or 0.  *)
SecId(h, n) == LET i == SelectInSeq(h.list, LAMBDA s : h.secs[s].n = n) IN IF i = 0 THEN 0 ELSE h.list[i]
KeyId(h, x, n) == LET i == SelectInSeq(h.secs[x].keys, LAMBDA k : h.keys[k].n = n)
                  IN IF i = 0 THEN 0 ELSE h.secs[x].keys[i]
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)

AddSec(h, n) ==
  LET i == SecId(h, n) IN
  IF i # 0 THEN CRes(h, TRUE, <<i>>, <<>>)
  ELSE LET j == Len(h.secs) + 1 IN
       CRes([h EXCEPT !.secs = Append(@, ConcSec(n)), !.list = Append(@, j)], TRUE, <<j>>, <<>>)

GiveShadow(h, k, v) ==
  LET key == h.keys[k] IN
  IF key.bool THEN Out(h, FALSE)
  ELSE IF ~h.o.dupShadow /\ (key.v = v \/ \E i \in 1..Len(key.sh) : key.sh[i] = v) THEN Out(h, TRUE)
       ELSE Out([h EXCEPT !.keys[k].sh = Append(@, v)], TRUE)

(* The key of that name: a new one with the value; otherwise the one there *)
(* is, which gets the value too if set.                                    *)
AddKey(h, x, n, v, set) ==
  LET k == KeyId(h, x, n) IN
  IF k = 0
  THEN LET j == Len(h.keys) + 1 IN
       CRes([h EXCEPT !.keys = Append(@, ConcKey(n, v, x)), !.secs[x].keys = Append(@, j)], TRUE, <<>>, <<j>>)
  ELSE IF ~set THEN CRes(h, TRUE, <<>>, <<k>>)
  ELSE IF h.o.shadow
       THEN LET r == GiveShadow(h, k, v) IN CRes(r.h, r.out, <<>>, IF r.out THEN <<k>> ELSE <<>>)
       ELSE CRes([h EXCEPT !.keys[k].v = v], TRUE, <<>>, <<k>>)

FileAtom(h, ev) ==
  LET raw == TextArg(ev, "n")
      n == FoldSec(h.o, raw)               \* the name as it is
      m == SecName(h.o, raw)               \* "" is the default section
      Found(i) == IF i = 0 THEN Out(h, FALSE) ELSE CRes(h, TRUE, <<i>>, <<>>)
      Gone(i) == [h EXCEPT !.list = Without(@, i)] IN
  CASE ev.op = "newsec" -> IF raw = <<>> THEN Out(h, FALSE) ELSE AddSec(h, n)
    [] ev.op = "newraw" -> LET r == AddSec(h, n) IN
         [r EXCEPT !.h.secs[r.ss[1]].raw = TRUE, !.h.secs[r.ss[1]].body = X(ev.v)]
    [] ev.op \in {"section", "secidx"} -> AddSec(h, m)
    [] ev.op \in {"getsec", "secsby"} -> Found(SecId(h, m))
    [] ev.op = "hassec" -> Out(h, SecId(h, m) # 0)
    [] ev.op \in {"delsec", "delsecidx"} -> Out(Gone(SecId(h, m)), TRUE)
    [] ev.op = "seclist" -> Out(h, <<>> \o [i \in 1..Len(h.list) |-> h.secs[h.list[i]].n])
    [] ev.op = "sections" -> CRes(h, TRUE, h.list, <<>>)

SecAtom(h, ev, x) ==
  LET raw == TextArg(ev, "n")
      n == FoldKey(h.o, raw)
      ks == h.secs[x].keys
      k == KeyId(h, x, n)
      body == h.secs[x].body IN
  CASE ev.op = "newkey" -> IF raw = <<>> THEN Out(h, FALSE) ELSE AddKey(h, x, n, X(ev.v), TRUE)
    [] ev.op = "newbool" -> LET r == AddKey(h, x, n, X("true"), TRUE) IN
         IF r.out THEN [r EXCEPT !.h.keys[r.ks[1]].bool = TRUE] ELSE r
    [] ev.op = "key" -> AddKey(h, x, n, <<>>, FALSE)
    [] ev.op = "getkey" -> IF k = 0 THEN Out(h, FALSE) ELSE CRes(h, TRUE, <<>>, <<k>>)
    [] ev.op = "haskey" -> Out(h, k # 0)
    [] ev.op = "delkey" -> Out([h EXCEPT !.secs[x].keys = Without(@, k)], TRUE)
    [] ev.op = "keylist" -> Out(h, <<>> \o [i \in 1..Len(ks) |-> h.keys[ks[i]].n])
    [] ev.op = "keys" -> CRes(h, TRUE, <<>>, ks)
    [] ev.op = "hash" -> Out(h, {<<h.keys[ks[i]].n, h.keys[ks[i]].v>> : i \in 1..Len(ks)})
    [] ev.op = "hasvalue" -> Out(h, \E i \in 1..Len(ks) : h.keys[ks[i]].v = X(ev.v))
    [] ev.op = "childnames" ->
         LET prefix == h.secs[x].n \o h.o.child
             names == <<>> \o [i \in 1..Len(h.list) |-> h.secs[h.list[i]].n] IN
         Out(h, SelectSeq(names, LAMBDA m : StartsWith(m, prefix)))
    [] ev.op = "body" -> Out(h, Trim(body))
    [] ev.op = "setbody" -> Out(IF h.secs[x].raw THEN [h EXCEPT !.secs[x].body = X(ev.v)] ELSE h, TRUE)

KeyAtom(h, ev, x) ==
  LET k == h.keys[x] IN
  CASE ev.op \in {"value", "string"} -> Out(h, k.v)
    [] ev.op = "setval" -> Out([h EXCEPT !.keys[x].v = X(ev.v)], TRUE)
    [] ev.op = "addshadow" -> IF ~h.o.shadow THEN Out(h, FALSE) ELSE GiveShadow(h, x, X(ev.v))
    [] ev.op = "shadows" -> Out(h, ShadowValues(k))
    [] ev.op = "addnested" ->
         IF ~h.o.nested \/ k.bool THEN Out(h, FALSE) ELSE Out([h EXCEPT !.keys[x].ne = Append(@, X(ev.v))], TRUE)
    [] ev.op = "nested" -> Out(h, k.ne)

ConcFileOps == {"newsec", "newraw", "section", "secidx", "getsec", "secsby", "hassec", "delsec", "delsecidx",
                "seclist", "sections"}
ConcSecOps == {"newkey", "newbool", "key", "getkey", "haskey", "delkey", "keylist", "keys", "hash", "hasvalue",
               "childnames", "body", "setbody"}
ConcKeyOps == {"value", "string", "setval", "addshadow", "shadows", "addnested", "nested"}

Atom(h, ev, x) ==
  CASE ev.op \in ConcFileOps -> FileAtom(h, ev)
    [] ev.op \in ConcSecOps -> SecAtom(h, ev, x)
    [] ev.op \in ConcKeyOps -> KeyAtom(h, ev, x)

(* Is the recorded plain result the one expected?                          *)
SameConc(op, exp, got) ==
  CASE op \in {"value", "string", "body"} -> exp = X(got)
    [] op \in {"seclist", "childnames", "keylist", "shadows", "nested"} -> exp = XS(got)
    [] op = "hash" -> exp = {<<X(got[i][1]), X(got[i][2])>> : i \in 1..Len(got)} /\ Len(got) = Cardinality(exp)
    [] OTHER -> exp = got

(* Every section listed once and named once; the same for its keys.        *)
Injective(s, f(_)) == \A i, j \in 1..Len(s) : i # j => f(s[i]) # f(s[j])
ConcWellFormed(h) ==
  /\ Injective(h.list, LAMBDA x : h.secs[x].n)
  /\ \A x \in 1..Len(h.secs) :
       /\ Injective(h.secs[x].keys, LAMBDA k : h.keys[k].n)
       /\ \A i \in 1..Len(h.secs[x].keys) : h.keys[h.secs[x].keys[i]].sec = x
=============================================================================
