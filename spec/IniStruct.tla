------------------------------ MODULE IniStruct ------------------------------
(***************************************************************************)
(* Struct mapping.  A struct type is a sequence of fields                  *)
(*   [go, name, skip, omit, shadow, many, ext, delim, com,                 *)
(*    kind, ptr, emb, elem, refl, fails, fs]                               *)
(* (Go name; tag name, tag "-" or not settable, tag options omitempty      *)
(* allowshadow nonunique extends, delim tag, comment tag; kind of type,    *)
(* pointer?, embedded?, element kind of a slice, a type that writes itself *)
(* ("stamped" section) or fails to, fields of a struct).                   *)
(* Kinds: the scalar kinds of IniValue, float32, uint8, "dur", "time",     *)
(* "slice", "struct", "structs" (slice of structs), "other".               *)
(*                                                                         *)
(* A value is [k, t, l]: "v" with its text, "nil", "struct" with the       *)
(* values of the fields, or "list" with the elements.                      *)
(***************************************************************************)
EXTENDS IniValue

(* Types and values as they stand in a trace.                              *)
RECURSIVE TypeOf(_), ValOf(_)
TypeOf(j) ==
  LET B(f) == f \in DOMAIN j /\ j[f]
      T(f) == IF f \in DOMAIN j THEN X(j[f]) ELSE <<>>
      l == IF "fs" \in DOMAIN j THEN j.fs ELSE <<>> IN
  [go |-> T("go"), name |-> T("name"), skip |-> B("skip") \/ B("hidden"), omit |-> B("omit"),
   shadow |-> B("shadow"), many |-> B("many"), ext |-> B("ext"), delim |-> T("delim"), com |-> T("com"),
   kind |-> j.kind, ptr |-> B("ptr"), emb |-> B("emb"),
   elem |-> IF "elem" \in DOMAIN j THEN j.elem ELSE "", refl |-> B("refl"), fails |-> B("fails"),
   fs |-> <<>> \o [i \in 1..Len(l) |-> TypeOf(l[i])]]
ValOf(j) ==
  LET l == IF "l" \in DOMAIN j THEN j.l ELSE <<>> IN
  [k |-> j.k, t |-> IF "t" \in DOMAIN j THEN X(j.t) ELSE <<>>, l |-> <<>> \o [i \in 1..Len(l) |-> ValOf(l[i])]]

Val(t) == [k |-> "v", t |-> t, l |-> <<>>]
Nil == [k |-> "nil", t |-> <<>>, l |-> <<>>]
Struct(l) == [k |-> "struct", t |-> <<>>, l |-> <<>> \o l]
ListOf(l) == [k |-> "list", t |-> <<>>, l |-> <<>> \o l]

(* Field names as the name mapper (if any) gives them.                     *)
AsciiUpper == {"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T",
               "U", "V", "W", "X", "Y", "Z"}
WithUnderscores(t, F(_)) ==
  Flat([i \in 1..Len(t) |-> (IF i > 1 /\ t[i] \in AsciiUpper THEN <<"_">> ELSE <<>>) \o <<F(t[i])>>])
NameMapped(nm, t) ==
  CASE nm = "snack" -> WithUnderscores(t, UpperC)
    [] nm = "title" -> WithUnderscores(t, LAMBDA c : IF c \in AsciiUpper THEN LowerC(c) ELSE c)
    [] nm = "lower" -> Lower(t)
    [] OTHER -> t
FieldName(nm, f) == IF f.name # <<>> THEN f.name ELSE NameMapped(nm, f.go)
Delim(f) == IF f.delim = <<>> THEN <<",">> ELSE f.delim

RECURSIVE ZeroVal(_), Zeros0(_)
Zeros0(fs) == IF fs = <<>> THEN <<>> ELSE <<ZeroVal(Head(fs))>> \o Zeros0(Tail(fs))
ZeroVal(f) ==
  IF f.ptr \/ f.kind \in {"slice", "structs"} THEN Nil
  ELSE IF f.kind = "struct" THEN Struct(Zeros0(f.fs))
  ELSE IF f.kind = "other" THEN Val(<<>>)
  ELSE Val(ZeroOf(f.kind))

ListKinds == {"string", "int", "int64", "uint", "uint64", "float", "bool", "time"}

MaxFloat32 == X("340282346638528859811704183484516925440")
(* The value a key's text has for a kind.                                  *)
FieldParse(kind, t) ==
  CASE kind = "dur" -> LET r == ParseDuration(t) IN IF r.ok THEN r ELSE ParseInt(t, 64)
    [] kind = "float32" -> LET r == ParseFloat(t)
                               mag == IF r.ok /\ r.v # <<>> /\ r.v[1] = "-" THEN Tail(r.v) ELSE r.v IN
                           IF r.ok /\ NumCmp(mag, MaxFloat32) > 0 THEN No ELSE r
    [] OTHER -> ParseAs(kind, t)

Done(d, v) == [d |-> d, e |-> FALSE, v |-> v]
Stop(d, v) == [d |-> d, e |-> TRUE, v |-> v]

(* Set a field from key <<si, ki>>.                                        *)
SetFromKey(c, f, v, p) ==
  LET str == KeyString(c.d, c.m, p[1], p[2])
      sh == ShadowParts(c.d, c.m, p[1], p[2], Delim(f))
      parts == IF f.shadow THEN sh.v ELSE Parts(str.v, Delim(f))
      d2 == IF f.shadow THEN sh.d ELSE str.d IN
  CASE f.kind = "slice" ->
         LET r == ListAs(f.elem, IF c.strict THEN "strict" ELSE "lenient", parts) IN
         IF parts = <<>> THEN Done(d2, v)
         ELSE IF f.ptr \/ f.elem \notin ListKinds \/ r.e THEN Stop(d2, v)
         ELSE Done(d2, ListOf([i \in 1..Len(r.v) |-> Val(r.v[i])]))
    [] f.kind \in {"other", "uint8"} -> Stop(c.d, v)
    [] f.kind = "structs" -> IF parts = <<>> THEN Done(d2, v) ELSE Stop(d2, v)
    [] f.kind = "struct" -> IF c.strict THEN Stop(str.d, v) ELSE Done(str.d, v)
    [] f.kind = "string" -> IF f.ptr \/ str.v # <<>> THEN Done(str.d, Val(str.v)) ELSE Done(str.d, v)
    [] OTHER ->
         LET r == FieldParse(f.kind, str.v) IN
         IF r.ok THEN Done(str.d, Val(r.v))
         ELSE IF c.strict THEN Stop(str.d, v) ELSE Done(str.d, v)

(* c == [d, m, nm, strict, si, ix]: document, value and name mappers,      *)
(* strictness, the section mapped from, its index among its namesakes.     *)
RECURSIVE MapField(_, _, _), MapFields(_, _, _), MapElems(_, _, _, _, _)
MapFields(c, fs, vs) ==
  IF fs = <<>> THEN [d |-> c.d, e |-> FALSE, v |-> <<>>]
  ELSE LET h == MapField(c, Head(fs), Head(vs)) IN
       IF h.e THEN [d |-> h.d, e |-> TRUE, v |-> vs]
       ELSE LET r == MapFields([c EXCEPT !.d = h.d], Tail(fs), Tail(vs)) IN
            [d |-> r.d, e |-> r.e, v |-> <<h.v>> \o r.v]
(* One new element for each of the sections, from the i-th on.             *)
MapElems(c, f, ps, i, acc) ==
  IF i > Len(ps) THEN Done(c.d, acc)
  ELSE LET r == MapFields([c EXCEPT !.si = ps[i], !.ix = i - 1], f.fs, Zeros0(f.fs)) IN
       IF r.e THEN Stop(r.d, acc)
       ELSE MapElems([c EXCEPT !.d = r.d], f, ps, i + 1, Append(acc, Struct(r.v)))
MapStruct(c, f, v) ==
  LET from == IF v.k = "nil" THEN Zeros0(f.fs) ELSE v.l
      r == MapFields(c, f.fs, from) IN
  IF r.e THEN Stop(r.d, v) ELSE Done(r.d, Struct(r.v))
MapField(c, f, v) ==
  IF f.skip THEN Done(c.d, v)
  ELSE
  LET d == c.d
      name == FieldName(c.nm, f)
      named == SecPositions(d, SecName(d.o, name))
      v0 == IF f.emb /\ f.kind = "struct" /\ v.k = "nil" THEN Struct(Zeros0(f.fs)) ELSE v
      key == FindKey(d, c.si, name) IN
  IF f.ext /\ f.emb /\ f.kind = "struct"
  THEN LET child == SecPositions(d, SecName(d.o, d.secs[c.si].n \o d.o.child \o f.name)) IN
       MapStruct([c EXCEPT !.si = IF f.name # <<>> /\ c.ix < Len(child) THEN child[c.ix + 1] ELSE @], f, v0)
  ELSE IF f.kind = "struct" /\ named # <<>>
  THEN IF Len(named) <= c.ix THEN Stop(d, v0)
       ELSE MapStruct([c EXCEPT !.si = named[c.ix + 1]], f, v0)
  ELSE IF f.many /\ f.kind = "structs"
  THEN IF named = <<>> THEN Done(d, v0)
       ELSE LET r == MapElems(c, f, named, 1, v.l) IN
            IF r.e THEN Stop(r.d, v) ELSE Done(r.d, ListOf(r.v))
  ELSE IF f.many /\ f.kind = "slice" /\ ~f.ptr      \* sections for elements that are no structs
  THEN IF named = <<>> THEN Done(d, v0) ELSE Stop(d, v0)
  ELSE IF key[1] = 0 THEN Done(d, v0)
  ELSE SetFromKey(c, f, v0, key)

(* MapTo / StrictMapTo of section si (the default section of the file      *)
(* if 0) to a struct or (top) a slice of structs.                          *)
MapTop(st, ev, f, v, si0) ==
  LET g == IF si0 = 0 THEN GetOrNewSection(st.d, <<>>) ELSE [d |-> st.d, si |-> si0]
      c == [d |-> g.d, m |-> st.m, nm |-> ev.namer, strict |-> ev.strict, si |-> g.si, ix |-> 0] IN
  IF f.kind = "structs"
  THEN LET r == MapElems(c, f, SecPositions(g.d, g.d.secs[g.si].n), 1, v.l) IN
       IF r.e THEN Stop(r.d, v) ELSE Done(r.d, ListOf(r.v))
  ELSE MapStruct(c, f, v)

------------------------------------------------------------------------------
(* Reflecting *)

EmptyVal(f, v) == \/ v.k = "nil"
                  \/ v.k = "list" /\ ~f.ptr /\ v.l = <<>>
                  \/ v.k = "v" /\ ~f.ptr /\ f.kind # "other"
                     /\ (v.t = ZeroOf(f.kind) \/ (f.kind = "time" /\ SameVal("time", v.t, ZeroOf("time"))))

(* Floating-point numbers are written in the shortest form, very large and *)
(* very small ones with an exponent.                                       *)
Digits2(n) == IF n < 10 THEN <<"0">> \o Dec(n) ELSE Dec(n)
FloatText(t) ==
  LET neg == t[1] = "-"
      u == IF neg THEN Tail(t) ELSE t
      pt == IdxC(u, 1, ".")
      ip == IF pt = 0 THEN u ELSE Upto(u, pt - 1)
      fp == IF pt = 0 THEN <<>> ELSE From(u, pt + 1)
      all == ip \o fp
      a == IdxNot(all, 1, {"0"})
      z == SelectLastInSeq(all, LAMBDA x : x # "0")
      ds == IF a = 0 THEN <<>> ELSE SubSeq(all, a, z)
      exp == Len(ip) - a
      ae == IF exp < 0 THEN -exp ELSE exp
      tail == <<"e", IF exp < 0 THEN "-" ELSE "+">> \o Digits2(ae)
      m == IF Len(ds) = 1 THEN ds ELSE <<ds[1], ".">> \o Tail(ds) IN
  IF ds = <<>> THEN t
  ELSE IF exp < -4 \/ exp >= 6 THEN (IF neg THEN <<"-">> ELSE <<>>) \o m \o tail
  ELSE t
ScalarText(kind, v) == IF kind \in {"float", "float32"} THEN FloatText(v.t)
                       ELSE IF kind = "time" THEN WholeSeconds(v.t) ELSE v.t

SetLists(d, si, ki, first, rest) ==
  [d EXCEPT !.secs[si].keys[ki].v = first, !.secs[si].keys[ki].sh = rest]
RECURSIVE Dedupe(_, _, _)
Dedupe(d, acc, ts) ==
  IF ts = <<>> THEN acc
  ELSE Dedupe(d, IF ~d.o.dupShadow /\ \E i \in 1..Len(acc) : acc[i] = Head(ts) THEN acc ELSE Append(acc, Head(ts)), Tail(ts))

PutValue(d, si, ki, f, v) ==
  CASE v.k = "nil" /\ (f.ptr \/ f.kind \notin {"slice", "structs"}) -> Done(d, v)
    [] f.kind = "slice" ->
         IF v.l = <<>> THEN Done(SetLists(d, si, ki, <<>>, <<>>), v)
         ELSE IF f.elem \notin ListKinds THEN Stop(d, v)
         ELSE LET ts == <<>> \o [i \in 1..Len(v.l) |-> ScalarText(f.elem, v.l[i])]
                  u == Dedupe(d, <<>>, ts) IN
              IF f.shadow /\ d.o.shadow THEN Done(SetLists(d, si, ki, u[1], Tail(u)), v)
              ELSE Done(SetLists(d, si, ki, Join(ts, Delim(f)), <<>>), v)
    [] f.kind = "structs" -> IF v.l = <<>> THEN Done(SetLists(d, si, ki, <<>>, <<>>), v) ELSE Stop(d, v)
    [] f.kind = "other" -> Stop(d, v)
    [] OTHER -> Done(SetValueAt(d, si, ki, ScalarText(f.kind, v)), v)

Commented(d, si, ki, com) ==
  IF ki = 0 THEN (IF d.secs[si].c = <<>> THEN SetSecComment(d, si, com) ELSE d)
  ELSE (IF d.secs[si].keys[ki].c = <<>> THEN SetKeyComment(d, si, ki, com) ELSE d)

RECURSIVE ReflField(_, _, _, _, _), ReflFields(_, _, _, _, _), ReflElems(_, _, _, _, _)
ReflFields(d, nm, si, fs, vs) ==
  IF fs = <<>> THEN Done(d, 0)
  ELSE LET h == ReflField(d, nm, si, Head(fs), Head(vs)) IN
       IF h.e THEN h ELSE ReflFields(h.d, nm, si, Tail(fs), Tail(vs))
ReflElems(d, nm, f, name, vs) ==
  IF vs = <<>> THEN Done(d, 0)
  ELSE LET n == NewSection(d, name) IN
       IF n.e THEN Stop(n.d, 0)
       ELSE LET e == Commented(n.d, n.si, 0, f.com)
                r == IF Head(vs).k = "nil" THEN Done(e, 0) ELSE ReflFields(e, nm, n.si, f.fs, Head(vs).l) IN
            IF r.e THEN r ELSE ReflElems(r.d, nm, f, name, Tail(vs))
ReflField(d, nm, si, f, v) ==
  IF f.skip \/ (f.omit /\ EmptyVal(f, v)) \/ (f.kind = "struct" /\ v.k = "nil") THEN Done(d, 0)
  ELSE IF f.refl /\ f.fails THEN Stop(d, 0)
  ELSE IF f.refl
  THEN LET n == GetOrNewSection(d, X("stamped"))
           k == GetOrNewKey(n.d, n.si, X("by")) IN
       Done(SetValueAt(k.d, k.si, k.ki, X("hand")), 0)
  ELSE
  LET name == FieldName(nm, f) IN
  IF f.ext /\ f.emb /\ f.kind = "struct" THEN ReflFields(d, nm, si, f.fs, v.l)
  ELSE IF f.kind = "struct"
  THEN LET j == FindSec(d, name)
           n == IF j # 0 THEN [d |-> d, si |-> j] ELSE NewSection(d, name) IN
       ReflFields(Commented(n.d, n.si, 0, f.com), nm, n.si, f.fs, v.l)
  ELSE IF f.many /\ f.kind = "structs" THEN ReflElems(d, nm, f, name, v.l)
  ELSE IF f.many /\ f.kind = "slice" /\ ~f.ptr THEN (IF v.l = <<>> THEN Done(d, 0) ELSE Stop(d, 0))
  ELSE LET ki == OwnKey(d, si, FoldKey(d.o, name))
           n == IF ki # 0 THEN [d |-> d, ki |-> ki] ELSE NewKey(d, si, name, <<>>) IN
       PutValue(Commented(n.d, si, n.ki, f.com), si, n.ki, f, v)

(* ReflectFrom on section si (the default section of the file if 0).       *)
ReflTop(st, ev, f, v, si0) ==
  LET g == IF si0 = 0 THEN GetOrNewSection(st.d, <<>>) ELSE [d |-> st.d, si |-> si0]
      name == g.d.secs[g.si].n IN
  IF g.d.o.nonuniq /\ name # DefaultName
  THEN LET d2 == DeleteSection(g.d, name) IN
       IF f.kind = "structs" THEN ReflElems(d2, ev.namer, [f EXCEPT !.com = <<>>], name, v.l)
       ELSE LET n == NewSection(d2, name) IN ReflFields(n.d, ev.namer, n.si, f.fs, v.l)
  ELSE IF f.kind = "structs" THEN Stop(g.d, 0)
  ELSE ReflFields(g.d, ev.namer, g.si, f.fs, v.l)

------------------------------------------------------------------------------
(* Values that count as equal after reflecting and mapping back: empty and *)
(* nil slices, times in the same second, and whatever is in ignored fields. *)
RECURSIVE NormVal(_, _)
NormVal(f, v) ==
  IF f.skip \/ (v.k = "list" /\ v.l = <<>>) THEN Nil
  ELSE CASE v.k = "struct" -> Struct([i \in 1..Len(v.l) |-> NormVal(f.fs[i], v.l[i])])
         [] v.k = "list" /\ f.kind = "structs" ->
              ListOf([i \in 1..Len(v.l) |-> Struct([j \in 1..Len(f.fs) |-> NormVal(f.fs[j], v.l[i].l[j])])])
         [] v.k = "v" /\ f.kind = "time" -> Val(WholeSeconds(v.t))
         [] v.k = "list" /\ f.elem = "time" -> ListOf([i \in 1..Len(v.l) |-> Val(WholeSeconds(v.l[i].t))])
         [] OTHER -> v

=============================================================================
