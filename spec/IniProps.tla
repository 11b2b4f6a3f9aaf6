------------------------------ MODULE IniProps ------------------------------
(***************************************************************************)
(* Calls that observe a property directly.  PropCall(st, ev) gives the     *)
(* next state, what was expected, and whether the recorded result is good. *)
(***************************************************************************)
EXTENDS IniApi

PropOps == {"rt", "rt2", "term", "long", "again", "back"}

(* Comment text after saving and loading it. *)
NormComment(c, isKey) == Trim(CommentText(c, isKey, <<LF>>))
(* Keys, values and comments; the comments as they are saved, or as they   *)
(* are (whatever the line breaks are).                                     *)
ComOf(d, saved) ==
  LET C(c, isKey) == SelectSeq(IF saved THEN NormComment(c, isKey) ELSE c, LAMBDA x : x # CR)
      K(k) == <<k.n, k.v, C(k.c, TRUE)>>
      S(s) == [n |-> s.n, c |-> C(s.c, FALSE), keys |-> <<>> \o [i \in 1..Len(s.keys) |-> K(s.keys[i])]] IN
  <<>> \o [i \in 1..Len(d.secs) |-> S(d.secs[i])]
(* Everything but the comments. *)
BareKey(k) == <<k.n, k.v, ShadowValues(k), k.ne, k.auto, k.bool>>
BareSec(s) == [n |-> s.n, body |-> Trim(s.body), keys |-> <<>> \o [i \in 1..Len(s.keys) |-> BareKey(s.keys[i])]]
Entries(d) == <<>> \o [i \in 1..Len(d.secs) |-> BareSec(d.secs[i])]

(* Names and value lists. *)
ListSec(s) == [n |-> s.n, keys |-> <<>> \o [i \in 1..Len(s.keys) |-> <<s.keys[i].n, ShadowValues(s.keys[i])>>]]
Lists(d) == <<>> \o [i \in 1..Len(d.secs) |-> ListSec(d.secs[i])]

(* Key and value plain, comments in normal form, everything else.          *)
SameDoc(cmp, saved, loaded) ==
  CASE cmp = "plain" -> Plain(saved) = Plain(loaded)
    [] cmp = "com" -> ComOf(saved, TRUE) = ComOf(loaded, FALSE)
    [] cmp = "entries" -> Entries(saved) = Entries(loaded)
    [] cmp = "shadows" -> Lists(saved) = Lists(loaded)
    [] OTHER -> View(saved) = View(loaded)

(* Save with the format given and load the saved text with the same        *)
(* options: the loaded document shows the same as the saved one.  The      *)
(* specification reads the very text that was saved.                       *)
RoundTrip(st, ev) ==
  LET p == Load(st.d.o, << [k |-> "text", t |-> X(ev.out.text)] >>) IN
  [st |-> [st EXCEPT !.d = p.d], out |-> View(st.d),
   good |-> /\ ev.out.err = "" /\ p.err = ""
            /\ XView(ev.out.view) = View(p.d)
            /\ SameDoc(ev.cmp, st.d, p.d)]

(* Save, load, save again: the same text twice.                            *)
RoundTrip2(st, ev) ==
  LET t1 == WriteDoc(st.d, FmtOf(ev.g), TextArg(ev, "indent"))
      p == Load(st.d.o, << [k |-> "text", t |-> t1] >>)
      t2 == WriteDoc(p.d, FmtOf(ev.g), TextArg(ev, "indent")) IN
  [st |-> [st EXCEPT !.d = p.d], out |-> t1,
   good |-> /\ ev.out.err = "" /\ p.err = ""
            /\ X(ev.out.t1) = t1 /\ X(ev.out.t2) = t2
            /\ t1 = t2]

(* Reload of a document that was not edited: it is the one that loading    *)
(* all its sources into a new document gives.                              *)
Again(st, ev) ==
  LET p == Load(st.d.o, st.srcs) IN
  [st |-> [st EXCEPT !.d = p.d], out |-> View(p.d),
   good |-> /\ p.err = "" /\ ev.out.err = ""
            /\ XView(ev.out.view) = View(p.d)]

(* Mapping what was reflected from a value into a new struct gives the     *)
(* value back.                                                             *)
Back(st, ev) ==
  LET f == TypeOf(ev.typ)
      r == MapTop(st, ev, f, ZeroVal(f), ev.s) IN
  [st |-> [st EXCEPT !.d = r.d], out |-> r.v,
   good |-> /\ ~r.e /\ ~ev.out.e
            /\ ValOf(ev.out.v) = r.v
            /\ NormVal(f, r.v) = NormVal(f, ValOf(ev.val))]

(* A call whose result is not specified, but that returns.                 *)
Returns(st, ev) == [st |-> st, out |-> TRUE, good |-> ev.out = "returned"]

(* A call with a result too long to record.                                *)
LongResult(st, ev) ==
  LET r == KeyString(st.d, st.m, ev.s, KeyAt(st.d, ev)) IN
  [st |-> [st EXCEPT !.d = r.d], out |-> Len(r.v), good |-> Len(r.v) > 1000]

PropCall(st, ev) == CASE ev.op = "rt" -> RoundTrip(st, ev)
                      [] ev.op = "rt2" -> RoundTrip2(st, ev)
                      [] ev.op = "back" -> Back(st, ev)
                      [] ev.op = "again" -> Again(st, ev)
                      [] ev.op = "long" -> LongResult(st, ev)
                      [] ev.op = "term" -> Returns(st, ev)
=============================================================================
