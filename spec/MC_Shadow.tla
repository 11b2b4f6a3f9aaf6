------------------------------ MODULE MC_Shadow -----------------------------
(***************************************************************************)
(* All sequences of up to MaxOps assignments to two keys: lines of a text,  *)
(* then creating the key again and adding shadows.  Stated from the         *)
(* assignments: with shadows, a key's values are the non-empty ones it was  *)
(* given, in order (each once, unless repeats are allowed) and its plain    *)
(* value is the first; without, the last assignment counts and adding is    *)
(* refused.  Saved and loaded again the lists are the same.                 *)
(***************************************************************************)
EXTENDS MC

CONSTANTS MaxOps, Every

Opt(m) == CASE m = "once" -> [shadow |-> TRUE]
            [] m = "all" -> [shadow |-> TRUE, dupShadow |-> TRUE]
            [] m = "off" -> NoOpts
Names == {"k", "j"}
Vals == {"1", "2", "", "x,y z"}


VARIABLES mode, ops, st
vars == <<mode, ops, st>>

Lines1 == SelectSeq(ops, LAMBDA a : a.h = "line")
Calls == SelectSeq(ops, LAMBDA a : a.h # "line")
TextOf(ls) == Flat(<<>> \o [i \in 1..Len(ls) |-> X(ls[i].n) \o X(" = ") \o X(ls[i].v) \o <<LF>>])
Begin(ls) == LoadStep(Opt(mode), Str(TextOf(ls)))
There(n) == OwnKey(st.d, 1, X(n)) # 0
CallOf(a) == IF a.h = "newkey" THEN [op |-> "newkey", s |-> 1, n |-> a.n, v |-> a.v]
             ELSE [op |-> "addshadow", s |-> 1, key |-> a.n, v |-> a.v]

Init == mode \in {"once", "all", "off"} /\ ops = <<>> /\ st = Call(Init0, LoadStep(Opt(mode), "")).st
Kinds == <<"line", "newkey", "addshadow">>
Assign(a) ==
  /\ ops' = Append(ops, a)
  /\ IF a.h = "line"
     THEN Calls = <<>> /\ st' = Call(Init0, LoadStep(Opt(mode), Str(TextOf(ops')))).st
     ELSE /\ (a.h = "addshadow" => There(a.n))
          /\ st' = Call(st, CallOf(a)).st
Next == /\ Len(ops) < MaxOps
        /\ \E h \in 1..3 : \E n \in Names : \E v \in Vals : Assign([h |-> Kinds[h], n |-> n, v |-> v])
        /\ UNCHANGED mode
Spec == Init /\ [][Next]_vars
Vw == <<mode, ops>>

------------------------------------------------------------------------------
Given(n) ==
  LET as == SelectSeq(ops, LAMBDA a : a.n = n /\ ~(mode = "off" /\ a.h = "addshadow")) IN
  <<>> \o [i \in 1..Len(as) |-> X(as[i].v)]
MeantList(n) ==
  LET g == Given(n)
      l == CASE mode = "off" -> <<g[Len(g)]>> [] mode = "all" -> g [] OTHER -> Dedup(g) IN
  SelectSeq(l, LAMBDA v : v # <<>>)
MeantValue(n) == LET g == Given(n) IN IF mode = "off" THEN g[Len(g)] ELSE g[1]
Named == Dedup(<<>> \o [i \in 1..Len(ops) |-> ops[i].n])
Shown(s) == <<>> \o [i \in 1..Len(s.keys) |-> <<s.keys[i].n, s.keys[i].v, ShadowValues(s.keys[i])>>]
KeepsAll == Shown(st.d.secs[1]) = <<>> \o [i \in 1..Len(Named) |-> <<X(Named[i]), MeantValue(Named[i]), MeantList(Named[i])>>]
Refuses == mode = "off" => \A n \in Names : There(n) =>
             LET r == Call(st, [op |-> "addshadow", s |-> 1, key |-> n, v |-> "3"]) IN r.out /\ r.st = st
SavedIsLoaded == LET r == Load(st.d.o, << [k |-> "text", t |-> WriteDoc(st.d, DefaultFmt, <<>>)] >>) IN
                 r.err = "" /\ Lists(r.d) = Lists(st.d)

Reads(n) == << [op |-> "value", s |-> 1, key |-> n], [op |-> "shadows", s |-> 1, key |-> n],
               [op |-> "strsh", s |-> 1, key |-> n, delim |-> ","] >>
Pos1(n) == CHOOSE i \in 1..4 : <<"1", "2", "", "x,y z">>[i] = n
Id == FoldLeft(LAMBDA a, x : (a * 29 + (CASE x.h = "line" -> 0 [] x.h = "newkey" -> 1 [] OTHER -> 2) * 8
                              + (IF x.n = "k" THEN 0 ELSE 4) + Pos1(x.v)) % 1000003, 1, ops)
Histories ==
  Len(ops) = MaxOps =>
  EmitSome(Every, Id, << Begin(Lines1) >> \o (<<>> \o [i \in 1..Len(Calls) |-> CallOf(Calls[i])]) \o << Obs >>
    \o Flat(<<>> \o [i \in 1..Len(Named) |-> Reads(Named[i])])
    \o << [op |-> "rt", g |-> Pretty, cmp |-> "shadows"], Obs >>)
=============================================================================
