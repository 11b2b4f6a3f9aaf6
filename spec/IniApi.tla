------------------------------- MODULE IniApi -------------------------------
(***************************************************************************)
(* The calls of the library as transitions: Call(st, ev) is the state and  *)
(* the result after call ev in state st.                                   *)
(*                                                                         *)
(*   st == [d, m, srcs, alt, held, hn]                                     *)
(*         document, value mapper, sources loaded so far; a second document *)
(*         that waits in the background; lists handed out earlier; number  *)
(*         of handles taken                                                *)
(*   ev == [op, arguments...]; texts in arguments are TLC strings; the     *)
(*         section or key it is made on as position s and name key, or as  *)
(*         handle h                                                        *)
(***************************************************************************)
EXTENDS IniWrite, IniStruct

Has(ev, f) == f \in DOMAIN ev
Arg(ev, f, dflt) == IF Has(ev, f) THEN ev[f] ELSE dflt
TextArg(ev, f) == IF Has(ev, f) THEN X(ev[f]) ELSE <<>>
BoolArg(ev, f) == Has(ev, f) /\ ev[f]

OptsOf(j) ==
  LET B(f) == Has(j, f) /\ j[f] IN
  [ loose |-> B("loose"), ins |-> B("ins"), insSec |-> B("insSec"), insKey |-> B("insKey"),
    ignCont |-> B("ignCont"), ignInline |-> B("ignInline"), skip |-> B("skip"), short |-> B("short"),
    bool |-> B("bool"), shadow |-> B("shadow"), nested |-> B("nested"), py |-> B("py"),
    spaceInline |-> B("spaceInline"), unescDQ |-> B("unescDQ"), unescCS |-> B("unescCS"),
    unparse |-> IF Has(j, "unparse") THEN XS(j.unparse) ELSE <<>>,
    delims |-> LET t == TextArg(j, "delims") IN IF t = <<>> THEN DefaultOpts.delims ELSE t,
    wdelim |-> LET t == TextArg(j, "wdelim") IN IF t = <<>> THEN DefaultOpts.wdelim ELSE t,
    child |-> LET t == TextArg(j, "child") IN IF t = <<>> THEN DefaultOpts.child ELSE t,
    keepQ |-> B("keepQ"), nonuniq |-> B("nonuniq"), dupShadow |-> B("dupShadow"), block |-> TRUE ]

FmtOf(j) ==
  LET B(f) == Has(j, f) /\ j[f] IN
  [prettySection |-> B("prettySection"), prettyFormat |-> B("prettyFormat"),
   prettyEqual |-> B("prettyEqual"), defaultHeader |-> B("defaultHeader"),
   left |-> TextArg(j, "left"), right |-> TextArg(j, "right"),
   lb |-> IF Has(j, "lb") THEN X(j.lb) ELSE <<LF>>]

SrcOf(j) == [k |-> j.k, t |-> TextArg(j, "t")]
SrcsOf(js) == <<>> \o [i \in 1..Len(js) |-> SrcOf(js[i])]

One0 == [d |-> MkDoc(DefaultOpts), m |-> "", srcs |-> <<>>]
Init0 == [d |-> One0.d, m |-> "", srcs |-> <<>>, alt |-> One0, held |-> <<>>, hn |-> 0]

R(st, out) == [st |-> st, out |-> out]
RD(st, d, out) == [st |-> [st EXCEPT !.d = d], out |-> out]
Pos(r) == IF r.e THEN <<0, 0>> ELSE <<r.si, r.ki>>

(* Position of the named key in section position ev.s *)
KeyAt(d, ev) == IF Has(ev, "ki") THEN ev.ki ELSE OwnKey(d, ev.s, X(ev.key))
KeyOf(d, ev) == d.secs[ev.s].keys[KeyAt(d, ev)]

OwnHash(s) == {<<s.keys[i].n, s.keys[i].v>> : i \in 1..Len(s.keys)}

RECURSIVE ParentKeyPos(_, _)
ParentKeyPos(d, as) ==
  IF as = <<>> THEN <<>>
  ELSE ([j \in 1..Len(d.secs[Head(as)].keys) |-> <<Head(as), j>>]) \o ParentKeyPos(d, Tail(as))

(* Handles: a caller may keep a section or key it was given.  A call made  *)
(* through a handle is made on that very element, wherever it is by now.   *)
(* Once the element was deleted, such a call leaves the document alone     *)
(* (and its result is not specified), even if there is a new element of    *)
(* that name.                                                              *)
Grab(st, ev) ==
  LET h == st.hn + 1
      at == [st EXCEPT !.hn = h] IN
  IF Has(ev, "key") THEN [at EXCEPT !.d.secs[ev.s].keys[KeyAt(st.d, ev)].hs = @ \cup {h}]
  ELSE [at EXCEPT !.d.secs[ev.s].hs = @ \cup {h}]
HandleAt(d, h) ==
  LET si == IdxWhere(d.secs, 1, LAMBDA s : h \in s.hs \/ \E j \in 1..Len(s.keys) : h \in s.keys[j].hs) IN
  IF si = 0 THEN <<0, 0>> ELSE <<si, IdxWhere(d.secs[si].keys, 1, LAMBDA k : h \in k.hs)>>
Dead(st, ev) == Has(ev, "h") /\ HandleAt(st.d, ev.h)[1] = 0 /\ HandleAt(st.alt.d, ev.h)[1] = 0
(* A handle into the document in the background works there.               *)
Behind(st, ev) == Has(ev, "h") /\ HandleAt(st.d, ev.h)[1] = 0 /\ HandleAt(st.alt.d, ev.h)[1] # 0
Unspecified(st, ev) == Dead(st, ev) \/ Behind(st, ev)
Swap(st) == [st EXCEPT !.d = st.alt.d, !.m = st.alt.m, !.srcs = st.alt.srcs,
                       !.alt = [d |-> st.d, m |-> st.m, srcs |-> st.srcs]]
Located(st, ev) ==
  IF ~Has(ev, "h") THEN ev
  ELSE LET p == HandleAt(st.d, ev.h) IN
       ev @@ (IF p[2] = 0 THEN [s |-> p[1]] ELSE [s |-> p[1], ki |-> p[2], key |-> "(by handle)"])

(* The lists that calls hand out: copies, which keep what they showed.     *)
Listed(d, ev) ==
  LET Names(ps) == <<>> \o [i \in 1..Len(ps) |-> d.secs[ps[i]].n]
      Own(s) == <<>> \o [j \in 1..Len(d.secs[s].keys) |-> d.secs[s].keys[j].n]
      Vals(s) == <<>> \o [j \in 1..Len(d.secs[s].keys) |-> d.secs[s].keys[j].v]
      Parents(s) == LET ps == ParentKeyPos(d, Ancestors(d, s)) IN
                    <<>> \o [i \in 1..Len(ps) |-> d.secs[ps[i][1]].keys[ps[i][2]].n] IN
  CASE ev.what \in {"seclist", "sections"} -> Names([i \in 1..Len(d.secs) |-> i])
    [] ev.what = "secsby" -> Names(SecPositions(d, SecName(d.o, X(ev.n))))
    [] ev.what = "children" -> Names(Children(d, ev.s))
    [] ev.what \in {"keylist", "keys"} -> Own(ev.s)
    [] ev.what = "parentkeys" -> Parents(ev.s)
    [] ev.what = "hash" -> Vals(ev.s)
    [] ev.what = "nested" -> KeyOf(d, ev).ne
    [] ev.what = "shadows" -> ShadowValues(KeyOf(d, ev))

FileCall(st, ev) ==
  LET d == st.d op == ev.op IN
  CASE op = "load" ->
         LET s == SrcsOf(ev.srcs) r == Load(OptsOf(ev.o), s) IN
         R([st EXCEPT !.d = r.d, !.m = "", !.srcs = s], r.err)
    [] op = "append" ->
         LET s == st.srcs \o SrcsOf(ev.srcs) r == ReadChecked(d, s, SrcsOf(ev.srcs)) IN
         R([st EXCEPT !.d = r.d, !.srcs = s], r.err)
    [] op = "reload" -> LET r == ReadSources(d, st.srcs) IN RD(st, r.d, r.err)
    [] op = "block" -> R(st, TRUE)
    [] op = "mapper" -> R([st EXCEPT !.m = ev.v], TRUE)
    [] op = "obs" -> R(st, View(d))
    [] op = "swap" -> R(Swap(st), TRUE)
    [] op = "intact" -> R(st, TRUE)
    [] op = "absent" -> R(CASE ev.was = "hold" -> [st EXCEPT !.held = Append(@, <<>>)]
                              [] ev.was = "grab" -> [st EXCEPT !.hn = @ + 1]
                              [] OTHER -> st,
                          ev.s \notin 1..Len(d.secs) \/ (Has(ev, "key") /\ KeyAt(d, ev) = 0))
    [] op = "hold" -> LET r == Listed(d, ev) IN R([st EXCEPT !.held = Append(@, r)], r)
    [] op = "held" -> R(st, st.held[ev.i])
    [] op = "spoil" -> R(st, Listed(d, ev))
    [] op = "write" -> R(st, WriteDoc(d, FmtOf(ev.g), TextArg(ev, "indent")))
    (* A stream that takes only the beginning, a place where no file can be. *)
    [] op = "writefail" -> R(st, WriteDoc(d, FmtOf(ev.g), TextArg(ev, "indent")))
    [] op = "savefail" -> R(st, TRUE)
    (* The file behind the i-th source becomes another one, or is what the   *)
    (* document is saved to.                                                 *)
    [] op = "touch" ->
         R([st EXCEPT !.srcs[ev.i] = IF Has(ev, "g") THEN [k |-> "text", t |-> WriteDoc(d, FmtOf(ev.g), <<>>)] ELSE SrcOf(ev.src)], TRUE)
    [] op = "newsec" -> LET r == NewSection(d, X(ev.n)) IN RD(st, r.d, [e |-> r.e, p |-> r.si])
    [] op = "newraw" -> LET r == NewRawSection(d, X(ev.n), X(ev.v)) IN RD(st, r.d, [e |-> r.e, p |-> r.si])
    [] op = "newsecs" -> LET r == NewSections(d, XS(ev.ns)) IN RD(st, r.d, r.e)
    [] op = "getsec" -> LET i == FindSec(d, X(ev.n)) IN R(st, [e |-> i = 0, p |-> i])
    [] op = "hassec" -> R(st, FindSec(d, X(ev.n)) # 0)
    [] op = "section" -> LET r == GetOrNewSection(d, X(ev.n)) IN RD(st, r.d, r.si)
    [] op = "secidx" -> LET r == SectionWithIndex(d, X(ev.n), ev.k) IN RD(st, r.d, r.si)
    [] op = "secsby" -> R(st, <<>> \o SecPositions(d, SecName(d.o, X(ev.n))))
    [] op = "seclist" -> R(st, <<>> \o [i \in 1..Len(d.secs) |-> d.secs[i].n])
    [] op = "delsec" -> RD(st, DeleteSection(d, X(ev.n)), TRUE)
    [] op = "delsecidx" -> LET r == DeleteSectionWithIndex(d, X(ev.n), ev.k) IN RD(st, r.d, r.e)
    [] op = "childsof" -> LET r == GetOrNewSection(d, X(ev.n)) IN RD(st, r.d, <<>> \o Children(r.d, r.si))

SecCall(st, ev) ==
  LET d == st.d op == ev.op s == d.secs[ev.s] IN
  CASE op = "seccom" -> RD(st, SetSecComment(d, ev.s, X(ev.v)), TRUE)
    [] op = "setbody" -> RD(st, SetBody(d, ev.s, X(ev.v)), TRUE)
    [] op = "children" -> R(st, <<>> \o Children(d, ev.s))
    [] op = "parentkeys" -> R(st, <<>> \o ParentKeyPos(d, Ancestors(d, ev.s)))
    [] op = "keylist" -> R(st, <<>> \o [j \in 1..Len(s.keys) |-> s.keys[j].n])
    [] op = "keys" -> R(st, <<>> \o [j \in 1..Len(s.keys) |-> <<ev.s, j>>])
    [] op = "hash" -> R(st, OwnHash(s))
    [] op = "hasvalue" -> R(st, \E j \in 1..Len(s.keys) : s.keys[j].v = X(ev.v))
    [] op = "newkey" -> LET r == NewKey(d, ev.s, X(ev.n), X(ev.v)) IN RD(st, r.d, [e |-> r.e, p |-> Pos(r)])
    [] op = "newbool" -> LET r == NewBooleanKey(d, ev.s, X(ev.n)) IN RD(st, r.d, [e |-> r.e, p |-> Pos(r)])
    [] op = "getkey" -> LET p == FindKey(d, ev.s, X(ev.n)) IN R(st, [e |-> p[1] = 0, p |-> p])
    [] op = "haskey" -> R(st, FindKey(d, ev.s, X(ev.n))[1] # 0)
    [] op = "key" -> LET r == GetOrNewKey(d, ev.s, X(ev.n)) IN RD(st, r.d, Pos(r))
    [] op = "delkey" -> RD(st, DeleteKey(d, ev.s, X(ev.n)), TRUE)

(* Struct mapping: section ev.s, or the file (0).                          *)
StructCall(st, ev) ==
  LET f == TypeOf(ev.typ)
      v == IF Has(ev, "val") THEN ValOf(ev.val) ELSE ZeroVal(f)
      Res(r) == [e |-> r.e, v |-> IF r.e THEN Nil ELSE r.v] IN
  CASE ev.op = "map" -> LET r == MapTop(st, ev, f, v, ev.s) IN RD(st, r.d, Res(r))
    [] ev.op = "mapsrc" ->
         LET p == Load(DefaultOpts, SrcsOf(ev.srcs))
             r == MapTop([st EXCEPT !.d = p.d, !.m = ""], ev, f, v, 0) IN
         R(st, IF p.err # "" THEN [e |-> TRUE, v |-> Nil] ELSE Res(r))
    [] ev.op = "reflect" -> LET r == ReflTop(st, ev, f, v, ev.s) IN RD(st, r.d, r.e)

KeyCall(st, ev) ==
  LET d == st.d op == ev.op ki == KeyAt(d, ev) k == d.secs[ev.s].keys[ki]
      str == KeyString(d, st.m, ev.s, ki) IN
  CASE op = "setval" -> RD(st, SetValueAt(d, ev.s, ki, X(ev.v)), TRUE)
    [] op = "value" -> R(st, k.v)
    [] op = "keycom" -> RD(st, SetKeyComment(d, ev.s, ki, X(ev.v)), TRUE)
    [] op = "addshadow" -> LET r == AddShadow(d, ev.s, ki, X(ev.v)) IN RD(st, r.d, r.e)
    [] op = "addnested" -> LET r == AddNested(d, ev.s, ki, X(ev.v)) IN RD(st, r.d, r.e)
    [] op = "shadows" -> R(st, ShadowValues(k))
    [] op = "string" -> RD(st, str.d, str.v)
    [] op = "strings" -> RD(st, str.d, Parts(str.v, X(ev.delim)))
    [] op = "strsh" -> LET r == ShadowParts(d, st.m, ev.s, ki, X(ev.delim)) IN RD(st, r.d, r.v)
    [] op = "get" -> LET r == ParseAs(ev.ty, str.v) IN
                     RD(st, str.d, [e |-> ~r.ok, v |-> IF r.ok THEN r.v ELSE <<>>])
    [] op = "must" ->
         IF ev.ty = "string"
         THEN IF str.v = <<>> THEN RD(st, SetValueAt(str.d, ev.s, ki, X(ev.def)), X(ev.def))
              ELSE RD(st, str.d, str.v)
         ELSE LET r == ParseAs(ev.ty, str.v) IN
              IF r.ok THEN RD(st, str.d, r.v)
              ELSE RD(st, SetValueAt(str.d, ev.s, ki, StoredText(ev.ty, X(ev.def))), X(ev.def))
    [] op = "must0" -> LET r == ParseAs(ev.ty, str.v) IN RD(st, str.d, IF r.ok THEN r.v ELSE ZeroOf(ev.ty))
    [] op = "validate" -> RD(st, str.d, <<"<">> \o str.v \o <<">">>)      \* with a function that adds brackets
    [] op = "in" -> RD(st, str.d, InResult(ev.ty, str.v, X(ev.def), XS(ev.cands)))
    [] op = "range" -> RD(st, str.d, RangeResult(ev.ty, str.v, X(ev.def), X(ev.lo), X(ev.hi)))
    [] op = "list" -> LET r == ListAs(ev.ty, ev.mode, Parts(str.v, X(ev.delim))) IN RD(st, str.d, r)

FileOps == {"load", "append", "reload", "block", "mapper", "obs", "write", "writefail", "savefail", "touch", "swap", "intact", "absent", "hold", "held", "spoil", "newsec", "newraw", "newsecs",
            "getsec", "hassec", "section", "secidx", "secsby", "seclist", "delsec", "delsecidx", "childsof"}
SecOps == {"seccom", "setbody", "children", "parentkeys", "keylist", "keys", "hash", "hasvalue", "newkey",
           "newbool", "getkey", "haskey", "key", "delkey"}
KeyOps == {"long", "setval", "value", "keycom", "addshadow", "addnested", "shadows", "string", "strings", "strsh",
           "get", "must", "must0", "validate", "in", "range", "list"}

StructOps == {"map", "mapsrc", "reflect", "back"}

(* A section or key the call is made on must exist. *)
Enabled(st, e) ==
  Unspecified(st, e) \/
  LET ev == Located(st, e) IN
  /\ ev.op \in SecOps \cup KeyOps => ev.s \in 1..Len(st.d.secs)
  /\ ev.op \in KeyOps => KeyAt(st.d, ev) # 0
  /\ ev.op \in StructOps \ {"mapsrc"} => ev.s \in 0..Len(st.d.secs)
  /\ ev.op = "held" => ev.i \in 1..Len(st.held)
  /\ ev.op = "grab" => ev.s \in 1..Len(st.d.secs) /\ (Has(ev, "key") => KeyAt(st.d, ev) # 0)
  /\ ev.op \in {"hold", "spoil"} /\ Has(ev, "s") => ev.s \in 1..Len(st.d.secs)
  /\ ev.op \in {"hold", "spoil"} /\ Has(ev, "key") => KeyAt(st.d, ev) # 0

Call0(st, e) ==
  LET ev == Located(st, e) IN
  CASE ev.op = "grab" -> R(Grab(st, ev), TRUE)
    [] ev.op \in FileOps -> FileCall(st, ev)
    [] ev.op \in StructOps -> StructCall(st, ev)
    [] ev.op \in SecOps -> SecCall(st, ev)
    [] ev.op \in KeyOps -> KeyCall(st, ev)

Call(st, ev) == IF Dead(st, ev) THEN R(st, "unspecified")
                ELSE IF Behind(st, ev) THEN R(Swap(Call0(Swap(st), ev).st), "unspecified")
                ELSE Call0(st, ev)

------------------------------------------------------------------------------
(* How results look in a trace: Same(ev.op, expected, recorded).           *)
XKey(k) == [n |-> X(k.n), v |-> X(k.v), sh |-> XS(k.sh), ne |-> XS(k.ne), c |-> X(k.c)]
XSec(s) == [n |-> X(s.n), c |-> X(s.c), body |-> X(s.body),
            keys |-> <<>> \o [i \in 1..Len(s.keys) |-> XKey(s.keys[i])]]
XView(v) == <<>> \o [i \in 1..Len(v) |-> XSec(v[i])]

ErrOps == {"load", "append", "reload"}
TextOps == {"write", "value", "string", "must", "must0", "validate", "in", "range"}
TextsOps == {"hold", "held", "spoil", "seclist", "keylist", "shadows", "strings", "strsh"}

Same(op, exp, got) ==
  CASE op \in ErrOps -> exp = got
    [] op = "writefail" -> /\ got.n
                           /\ LET t == X(got.t) IN
                              IF got.e = "" THEN t = exp
                              ELSE got.e = "fault" /\ Len(t) < Len(exp) /\ t = SubSeq(exp, 1, Len(t))
    [] op \in TextOps -> exp = X(got)
    [] op \in TextsOps -> exp = XS(got)
    [] op = "obs" -> exp = XView(got)
    [] op = "hash" -> exp = {<<X(got[i][1]), X(got[i][2])>> : i \in 1..Len(got)} /\ Len(got) = Cardinality(exp)
    [] op = "get" -> exp.e = got.e /\ exp.v = X(got.v)
    [] op \in {"map", "mapsrc"} -> exp.e = got.e /\ exp.v = ValOf(got.v)
    [] op = "list" -> exp.e = got.e /\ exp.v = XS(got.v)
    [] OTHER -> exp = got

=============================================================================
