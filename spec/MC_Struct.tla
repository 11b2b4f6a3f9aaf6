------------------------------ MODULE MC_Struct -----------------------------
(***************************************************************************)
(* A struct with a field K of every kind (plain or pointer), a list L, a    *)
(* struct (or pointer to one) H with a number X, and an ignored field, and  *)
(* documents in which the key of each field is absent, valid or invalid.    *)
(* What mapping must give is stated from a table of texts: the field gets   *)
(* the value where there is one and is left alone otherwise; in strict mode *)
(* an invalid text is an error.  Reflecting any value of the struct, into   *)
(* an empty document or one that has the keys, and mapping back gives the   *)
(* value again and leaves the rest of the document alone.                   *)
(***************************************************************************)
EXTENDS MC

CONSTANTS Part, Every

VARIABLE c
vars == <<c>>

(* Kinds with texts: what the text denotes, or "!" for an invalid text.     *)
T0(t, v) == [t |-> t, v |-> v]
Tm == "2024-05-06T07:08:09Z"
Texts == <<
  [k |-> "string", s |-> << T0("x y", "x y"), T0("%x", "%x"), T0("", "") >>],
  [k |-> "bool", s |-> << T0("YES", "true"), T0("off", "false"), T0("maybe", "!"), T0("", "!") >>],
  [k |-> "int", s |-> << T0("-12", "-12"), T0("0x1F", "31"), T0("9223372036854775808", "!"), T0("1.5", "!"), T0("", "!") >>],
  [k |-> "int8", s |-> << T0("127", "127"), T0("-128", "-128"), T0("128", "!"), T0("-129", "!"), T0("x", "!") >>],
  [k |-> "int16", s |-> << T0("-32768", "-32768"), T0("32768", "!"), T0("", "!") >>],
  [k |-> "int32", s |-> << T0("2147483647", "2147483647"), T0("2147483648", "!"), T0("", "!") >>],
  [k |-> "int64", s |-> << T0("9223372036854775807", "9223372036854775807"), T0("9223372036854775808", "!"), T0("z", "!") >>],
  [k |-> "uint", s |-> << T0("18446744073709551615", "18446744073709551615"), T0("18446744073709551616", "!"), T0("-1", "!") >>],
  [k |-> "uint16", s |-> << T0("65535", "65535"), T0("65536", "!"), T0("-0", "!") >>],
  [k |-> "uint32", s |-> << T0("4294967295", "4294967295"), T0("4294967296", "!"), T0("", "!") >>],
  [k |-> "uint64", s |-> << T0("0b11", "3"), T0("18446744073709551616", "!"), T0("", "!") >>],
  [k |-> "float", s |-> << T0("2.50", "2.5"), T0("-1e3", "-1000"), T0("1,5", "!"), T0("", "!") >>],
  [k |-> "float32", s |-> << T0("0.25", "0.25"), T0("1e39", "!"), T0("", "!") >>],
  [k |-> "dur", s |-> << T0("1m30s", "90000000000"), T0("7", "7"), T0("1x", "!"), T0("", "!") >>],
  [k |-> "time", s |-> << T0(Tm, Tm), T0("2024-05-06", "!"), T0("", "!") >> ]
>>
Preset(k) == CASE k = "string" -> "old" [] k = "bool" -> "true" [] k = "time" -> "2001-02-03T04:05:06Z" [] OTHER -> "3"
Zero(k) == Str(ZeroOf(k))

V(t) == [k |-> "v", t |-> t, l |-> <<>>]
NilV == [k |-> "nil", t |-> "", l |-> <<>>]
L(ts) == [k |-> "list", t |-> "", l |-> <<>> \o [i \in 1..Len(ts) |-> V(ts[i])]]
S(vs) == [k |-> "struct", t |-> "", l |-> vs]

(* c.k number of the kind, p pointer?, o omitempty?, d delimiter, hp: H a   *)
(* pointer?                                                                 *)
Kind == Texts[c.k].k
Typ == [kind |-> "struct", fs |-> <<
  [go |-> "K", kind |-> Kind, ptr |-> c.p, omit |-> c.o],
  [go |-> "List", name |-> "the list", kind |-> "slice", elem |-> "int", delim |-> c.d, omit |-> c.o],
  [go |-> "H", kind |-> "struct", ptr |-> c.hp, fs |-> << [go |-> "X", kind |-> "int", ptr |-> FALSE] >>],
  [go |-> "Skip", kind |-> "int", ptr |-> FALSE, skip |-> TRUE] >>]

------------------------------------------------------------------------------
(* Mapping *)
Lists0 == << "absent", "1,2", "1|2", "4", "1,x", "" >>
Nums0 == << "no section", "no key", "5", "bad" >>
Maps(k) ==
         [part : {"map"}, k : {k}, t : 0..Len(Texts[k].s), p : BOOLEAN, o : {FALSE}, d : {"", "|"}, hp : BOOLEAN,
          l : 1..Len(Lists0), x : 1..Len(Nums0), old : BOOLEAN, strict : BOOLEAN]

OldK == IF c.old THEN V(Preset(Kind)) ELSE IF c.p THEN NilV ELSE V(Zero(Kind))
OldL == IF c.old THEN L(<<"8", "9">>) ELSE NilV
OldH == IF c.old THEN S(<<V("6")>>) ELSE IF c.hp THEN NilV ELSE S(<<V("0")>>)
OldSkip == IF c.old THEN V("77") ELSE V("0")
Old == S(<<OldK, OldL, OldH, OldSkip>>)

Step(o, args) == args @@ [op |-> o]
MapSteps ==
  << LoadStep(NoOpts, "Skip = 5\n[other]\ny = 1\n") >>
  \o (IF c.t = 0 THEN <<>> ELSE << [op |-> "newkey", s |-> 1, n |-> "K", v |-> Texts[c.k].s[c.t].t] >>)
  \o (IF c.l = 1 THEN <<>> ELSE << [op |-> "newkey", s |-> 1, n |-> "the list", v |-> Lists0[c.l]] >>)
  \o (IF c.x = 1 THEN <<>> ELSE << [op |-> "newsec", n |-> "H"] >>)
  \o (IF c.x < 3 THEN <<>> ELSE << [op |-> "newkey", s |-> 3, n |-> "X", v |-> Nums0[c.x]] >>)
TheMap == [op |-> "map", s |-> 0, typ |-> Typ, val |-> Old, strict |-> c.strict, namer |-> ""]

TextV == IF c.t = 0 THEN "absent" ELSE Texts[c.k].s[c.t].v
BadK == TextV = "!"
BadL == Lists0[c.l] = "1,x" \/ (c.d = "" /\ Lists0[c.l] = "1|2") \/ (c.d = "|" /\ Lists0[c.l] = "1,2")
BadH == c.x = 4
NewK == IF c.t = 0 \/ BadK \/ (Kind = "string" /\ ~c.p /\ TextV = "") THEN OldK ELSE V(TextV)
NewL == CASE Lists0[c.l] \in {"absent", ""} -> OldL
          [] Lists0[c.l] = "4" -> L(<<"4">>)
          [] Lists0[c.l] = "1,2" -> IF c.d = "" THEN L(<<"1", "2">>) ELSE L(<<"0">>)
          [] Lists0[c.l] = "1|2" -> IF c.d = "|" THEN L(<<"1", "2">>) ELSE L(<<"0">>)
          [] Lists0[c.l] = "1,x" -> IF c.d = "" THEN L(<<"1", "0">>) ELSE L(<<"0">>)
NewH == CASE c.x = 1 -> OldH
          [] c.x = 3 -> S(<<V("5")>>)
          [] OTHER -> IF OldH = NilV THEN S(<<V("0")>>) ELSE OldH
Fails == c.strict /\ (BadK \/ BadL \/ BadH)

Run(steps) == FoldLeft(LAMBDA s, ev : Call(s, ev).st, Init0, steps)
MapOK(st) ==
  LET r == Call(st, TheMap) IN
  /\ r.out.e = Fails
  /\ ~Fails => r.out.v = ValOf(S(<<NewK, NewL, NewH, OldSkip>>))
  /\ View(r.st.d) = View(st.d)
Maps1 == c.part = "map" => MapOK(Run(MapSteps))

------------------------------------------------------------------------------
(* Reflecting *)
Values(k) == ({Texts[k].s[i].v : i \in 1..Len(Texts[k].s)} \ {"!", "%x"}) \cup {Zero(Texts[k].k)}
Refls(k) ==
         [part : {"refl"}, k : {k}, v : Values(k) \cup {"nil"}, p : BOOLEAN, o : BOOLEAN, d : {"", "|"}, hp : BOOLEAN,
          l : {"nil", "one", "two"}, x : {"nil", "0", "-7"}, there : BOOLEAN]
Sane(x) == (x.v = "nil" => x.p) /\ (x.x = "nil" => x.hp)
ValK == IF c.v = "nil" THEN NilV ELSE V(c.v)
ValL == CASE c.l = "nil" -> NilV [] c.l = "one" -> L(<<"1">>) [] OTHER -> L(<<"1", "-2">>)
ValH == IF c.x = "nil" THEN NilV ELSE S(<<V(c.x)>>)
Val1 == S(<<ValK, ValL, ValH, V("0")>>)
Here == "Skip = 5\nbefore = 1\n" \o (IF c.there THEN "K = zz\nbetween = 2\nthe list = 8,9\n" ELSE "")
        \o "[other]\ny = 1\n" \o (IF c.there THEN "[H]\nw = 3\nX = 4\n" ELSE "")
Begin == << LoadStep(NoOpts, Here) >>
TheRefl == [op |-> "reflect", s |-> 0, typ |-> Typ, val |-> Val1, namer |-> ""]
TheBack == [op |-> "back", s |-> 0, typ |-> Typ, val |-> Val1, strict |-> FALSE, namer |-> ""]

Empty(f) == CASE f = "K" -> IF c.p THEN c.v = "nil" ELSE c.v = Zero(Kind)
              [] f = "L" -> c.l = "nil"
(* Is the field written; is its key there afterwards?                      *)
Written(f) == ~(c.o /\ Empty(f))
(* A key that is not written over keeps its text.                          *)
Stays(f) == c.there /\ (~Written(f) \/ (f = "K" /\ c.v = "nil"))
KeysOf(d, si) == <<>> \o [i \in 1..Len(d.secs[si].keys) |-> Str(d.secs[si].keys[i].n)]
ValueOf(d, si, n) == LET i == OwnKey(d, si, X(n)) IN IF i = 0 THEN "absent" ELSE Str(d.secs[si].keys[i].v)
MeantKeys == IF c.there THEN << "Skip", "before", "K", "between", "the list" >>
             ELSE << "Skip", "before" >> \o (IF Written("K") THEN << "K" >> ELSE <<>>) \o (IF Written("L") THEN << "the list" >> ELSE <<>>)
MeantSecs == << "DEFAULT", "other" >> \o (IF c.there \/ c.x # "nil" THEN << "H" >> ELSE <<>>)
ReflOK(st) ==
  LET r == Call(st, TheRefl)
      d == r.st.d
      again == Call(r.st, TheRefl)
      f == TypeOf(Typ)
      p == Load(d.o, << [k |-> "text", t |-> WriteDoc(d, FmtOf(NoOpts), <<>>)] >>)
      Back1(dd) == MapTop([r.st EXCEPT !.d = dd], TheBack, f, ZeroVal(f), 0)
      want == NormVal(f, ValOf(Val1)) IN
  /\ ~r.out
  /\ KeysOf(d, 1) = MeantKeys
  /\ ValueOf(d, 1, "Skip") = "5" /\ ValueOf(d, 1, "before") = "1"
  /\ Str(d.secs[2].n) = "other" /\ KeysOf(d, 2) = << "y" >> /\ ValueOf(d, 2, "y") = "1"
  /\ (<<>> \o [i \in 1..Len(d.secs) |-> Str(d.secs[i].n)]) = MeantSecs
  /\ c.there => ValueOf(d, 3, "w") = "3" /\ ValueOf(d, 3, "X") = (IF c.x = "nil" THEN "4" ELSE c.x)
  /\ Stays("K") => ValueOf(d, 1, "K") = "zz"
  /\ Stays("L") => ValueOf(d, 1, "the list") = "8,9"
  /\ View(again.st.d) = View(d)
  /\ (~c.there \/ (~Stays("K") /\ ~Stays("L") /\ c.x # "nil")) =>
       /\ ~(Kind # "string" /\ c.v = "nil" /\ Written("K")) => ~Back1(d).e
       /\ NormVal(f, Back1(d).v) = IF Kind = "string" /\ c.v = "nil" /\ Written("K") THEN [want EXCEPT !.l[1] = Val(<<>>)] ELSE want
       /\ p.err = ""
       /\ NormVal(f, Back1(p.d).v) = NormVal(f, Back1(d).v)
Refls1 == c.part = "refl" => ReflOK(Run(Begin))
CanBack == (~c.there \/ (~Stays("K") /\ ~Stays("L") /\ c.x # "nil")) /\ ~(c.v = "nil" /\ Written("K"))

------------------------------------------------------------------------------
Num == FoldLeft(LAMBDA a, x : (a * 31 + x) % 1000003, 7,
  << c.k, Len(c.d) + (IF c.p THEN 2 ELSE 0) + (IF c.hp THEN 4 ELSE 0) + (IF c.o THEN 8 ELSE 0) >>
  \o (IF c.part = "map" THEN << c.t, c.l, c.x, (IF c.old THEN 1 ELSE 0) + (IF c.strict THEN 2 ELSE 0) >>
      ELSE << Len(c.v), IF c.there THEN 1 ELSE 0, Len(c.l), Len(c.x), IF c.l = "one" THEN 1 ELSE 0 >>))
Init == c \in [part : {"kind"}, k : 1..Len(Texts)]
Next == /\ c.part = "kind"
        /\ c' \in (IF Part = "map" THEN Maps(c.k) ELSE {x \in Refls(c.k) : Sane(x)})
Spec == Init /\ [][Next]_vars
Histories == c.part # "kind" =>
  EmitSome(Every, Num,
    IF c.part = "map" THEN MapSteps \o << TheMap, Obs >>
    ELSE Begin \o << TheRefl, Obs >> \o (IF CanBack THEN << TheBack, [op |-> "rt", g |-> NoOpts, cmp |-> "plain"], TheBack >> ELSE << TheRefl, Obs >>))
=============================================================================
