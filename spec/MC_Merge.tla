------------------------------ MODULE MC_Merge ------------------------------
(***************************************************************************)
(* All combinations of up to MaxSrcs sources: short texts, sources that do  *)
(* not exist, cannot be opened or fail while being read.  Stated from the   *)
(* lines of all the sources that count: order of first appearance, last     *)
(* assignment; each source begins in the default section; the first source  *)
(* that fails ends it with its error (a missing one is passed over in loose *)
(* mode), and short-circuit mode ends after the first that can be read.     *)
(* Naming sources at once or appending them later makes no difference.      *)
(***************************************************************************)
EXTENDS MC

CONSTANTS MaxSrcs, MaxLines, Every

F(t, k, a, v) == [t |-> X(t), k |-> k, a |-> X(a), v |-> X(v)]
Forms == << F("[s]", "sec", "s", ""), F("a=1", "key", "a", "1"), F("a=2", "key", "a", "2"), F("b=3", "key", "b", "3"),
            F("bad", "bad", "", ""), F("[DEFAULT]", "sec", "DEFAULT", "") >>
RECURSIVE Texts(_)
Texts(n) == IF n = 0 THEN {<<>>} ELSE Texts(n - 1) \cup {Append(t, i) : t \in {u \in Texts(n - 1) : Len(u) = n - 1}, i \in 1..Len(Forms)}
Sources == {[k |-> "text", l |-> t] : t \in Texts(MaxLines)} \cup [k : {"missing", "denied", "fault"}, l : {<<>>, <<2>>}]
SrcSeq == SetToSeq(Sources)

VARIABLES srcs, loose, short, num
vars == <<srcs, loose, short, num>>
Init == srcs = <<>> /\ loose \in BOOLEAN /\ short \in BOOLEAN /\ num = 1
Next == /\ Len(srcs) < MaxSrcs
        /\ \E i \in 1..Len(SrcSeq) : srcs' = Append(srcs, SrcSeq[i]) /\ num' = (num * 41 + i) % 1000003
        /\ UNCHANGED <<loose, short>>
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
TextOf(l) == Flat(<<>> \o [i \in 1..Len(l) |-> Forms[l[i]].t \o <<LF>>])
BadIn(l) == LET b == {i \in 1..Len(l) : Forms[l[i]].k = "bad"} IN IF b = {} THEN 0 ELSE Min(b)
Opt == [loose |-> loose, short |-> short]

(* What counts: lines (each source behind a header of the default section), *)
(* error, is there any text.                                                *)
RECURSIVE Counts(_, _, _)
Counts(ss, lines, any) ==
  IF ss = <<>> THEN [lines |-> lines, err |-> "", any |-> any]
  ELSE LET s == Head(ss) b == BadIn(s.l) IN
  CASE s.k = "missing" /\ loose -> Counts(Tail(ss), lines, TRUE)
    [] s.k = "missing" /\ ~loose -> [lines |-> lines, err |-> "notexist", any |-> any]
    [] s.k = "denied" -> [lines |-> lines, err |-> "denied", any |-> any]
    [] s.k = "fault" -> [lines |-> lines, err |-> "fault", any |-> any]
    [] b # 0 -> [lines |-> lines \o <<6>> \o Upto(s.l, b - 1), err |-> "delim", any |-> TRUE]
    [] OTHER -> IF short THEN [lines |-> lines \o <<6>> \o s.l, err |-> "", any |-> TRUE]
                ELSE Counts(Tail(ss), lines \o <<6>> \o s.l, TRUE)

Meaning(ls, any) ==
  LET L(i) == Forms[ls[i]]
      At(i) == LET hs == {j \in 1..i : L(j).k = "sec"} IN L(Max(hs)).a
      hs == Where(ls, LAMBDA i : L(i).k = "sec")
      names == Dedup((IF any THEN <<DefaultName>> ELSE <<>>) \o [i \in 1..Len(hs) |-> L(hs[i]).a])
      Key(n, k) == LET at == {i \in 1..Len(ls) : L(i).k = "key" /\ At(i) = n /\ L(i).a = k} IN <<k, L(Max(at)).v>>
      Sec(n) == LET ks == Where(ls, LAMBDA i : L(i).k = "key" /\ At(i) = n)
                    kn == Dedup(<<>> \o [i \in 1..Len(ks) |-> L(ks[i]).a]) IN
                [n |-> n, keys |-> <<>> \o [i \in 1..Len(kn) |-> Key(n, kn[i])]] IN
  <<>> \o [i \in 1..Len(names) |-> Sec(names[i])]

Specs(ss) == <<>> \o [i \in 1..Len(ss) |-> [k |-> ss[i].k, t |-> TextOf(ss[i].l)]]
Merges ==
  LET c == Counts(srcs, <<>>, FALSE)
      r == Load(OptsOf(Opt), Specs(srcs)) IN
  /\ r.err = c.err
  /\ Plain(r.d) = Meaning(c.lines, c.any)

(* The first source at load time and the others appended one by one, until  *)
(* one fails.                                                               *)
RECURSIVE Appended(_, _)
Appended(d, ss) ==
  IF ss = <<>> THEN [d |-> d, err |-> ""]
  ELSE LET r == ReadSources(d, <<Head(ss)>>) IN IF r.err # "" THEN r ELSE Appended(r.d, Tail(ss))
LaterOrAtOnce ==
  srcs # <<>> /\ ~short =>
  LET r == Load(OptsOf(Opt), Specs(srcs))
      q == Appended(MkDoc(OptsOf(Opt)), Specs(srcs)) IN
  r.err = q.err /\ View(r.d) = View(q.d)

Srcs(ss) == <<>> \o [i \in 1..Len(ss) |-> [k |-> ss[i].k, t |-> Str(TextOf(ss[i].l))]]
AtOnce == << [op |-> "load", o |-> Opt, srcs |-> Srcs(srcs)], Obs >>
Later == << [op |-> "load", o |-> Opt, srcs |-> Srcs(Upto(srcs, 1))], [op |-> "append", srcs |-> Srcs(From(srcs, 2))] >>
(* What a call that fails leaves behind is not looked at.                   *)
Histories ==
  srcs # <<>> =>
  EmitSome(Every, num, IF Len(srcs) > 1 /\ (num \div Every) % 2 = 0 
                                  THEN Later \o (IF Counts(srcs, <<>>, FALSE).err = "" THEN <<Obs>> ELSE <<>>) ELSE AtOnce)
=============================================================================
