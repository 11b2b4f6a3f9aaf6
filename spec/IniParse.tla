------------------------------ MODULE IniParse ------------------------------
(***************************************************************************)
(* The reader: a line-driven machine that consumes the lines of a source   *)
(* and edits a document.  Its state is                                     *)
(*                                                                         *)
(*   [d, ls, i, si, com, cnt, le, lk, raw, err]                            *)
(*                                                                         *)
(* document, lines, next line, current section, pending comment, next      *)
(* automatic number, "last value was empty", last ordinary key, "in an     *)
(* unparseable section", error kind ("" while none).  ParseStep consumes   *)
(* one entry (one or more lines); each kind of entry is one action.        *)
(***************************************************************************)
EXTENDS IniDoc

CommentChars == {"#", ";"}

StartParse(d, text) ==
  LET r == NewSection(d, DefaultName) IN
  [d |-> r.d, ls |-> Lines(text), i |-> 1, si |-> r.si, com |-> <<>>, cnt |-> 1,
   le |-> FALSE, lk |-> <<0, 0>>, raw |-> FALSE, err |-> ""]

LineAt(ls, i) == IF i <= Len(ls) THEN ls[i] ELSE <<>>

------------------------------------------------------------------------------
(* Values.  Each reader returns [v, com, i, err]: the value, comment text  *)
(* to add to the pending comment, next line, error kind.                   *)

Got(v, com, i) == [v |-> v, com |-> com, i |-> i, err |-> ""]
Bad(kind) == [v |-> <<>>, com |-> <<>>, i |-> 0, err |-> kind]

CommentFrom(t) == LET p == IdxAny(t, 1, CommentChars) IN IF p = 0 THEN <<>> ELSE From(t, p)

(* Quoted value that is not closed on its first line. *)
RECURSIVE MultiLine(_, _, _, _)
MultiLine(ls, i, val, q) ==
  LET next == LineAt(ls, i)
      p    == LastSub(next, q) IN
  IF p # 0 THEN Got(val \o Upto(next, p - 1), Trim(CommentFrom(From(next, p))), i + 1)
  ELSE IF i >= Len(ls) THEN Bad("other")
  ELSE MultiLine(ls, i + 1, val \o next, q)

(* Value whose line ended in a backslash (already removed). *)
RECURSIVE Continued(_, _, _)
Continued(ls, i, val) ==
  LET next == Trim(LineAt(ls, i)) IN
  IF next = <<>> THEN Got(val, <<>>, i + 1)
  ELSE LET v == val \o next IN
       IF v[Len(v)] # BSL THEN Got(v, <<>>, i + 1)
       ELSE Continued(ls, i + 1, Upto(v, Len(v) - 1))

(* Directly following indented lines. *)
RECURSIVE Indented(_, _, _)
Indented(ls, i, val) ==
  LET next == LineAt(ls, i) IN
  IF next # <<>> /\ next[1] \in {" ", TAB, FF}
  THEN Indented(ls, i + 1, val \o <<LF>> \o
                (IF next[Len(next)] = LF THEN Upto(next, Len(next) - 1) ELSE next))
  ELSE Got(val, <<>>, i)

(* First and last character are the quote, and it occurs nowhere between. *)
SurroundedBy(t, q) ==
  /\ Len(t) >= 2 /\ t[1] = q /\ t[Len(t)] = q
  /\ IdxC(t, 2, q) = Len(t)

InlineCommentAt(o, t) ==
  IF o.ignInline THEN 0
  ELSE IF o.spaceInline
       THEN LET h == IdxSub(t, 1, <<" ", "#">>)
                s == IdxSub(t, 1, <<" ", ";">>) IN
            IF h = 0 \/ (s # 0 /\ s < h) THEN s ELSE h
       ELSE IdxAny(t, 1, CommentChars)

ReadValue(o, in, ls, i) ==
  LET line == TrimLeft(in)
      endsLF(t) == t # <<>> /\ t[Len(t)] = LF IN
  IF line = <<>>
  THEN IF o.py /\ endsLF(in) THEN Indented(ls, i, <<>>) ELSE Got(<<>>, <<>>, i)
  ELSE LET q == IF LongerThan(line, 3) /\ StartsWith(line, TDQ) THEN TDQ
                ELSE IF line[1] = BT THEN <<BT>>
                ELSE IF o.unescDQ /\ line[1] = DQ THEN <<DQ>>
                ELSE <<>> IN
  IF q # <<>>
  THEN LET rest == From(line, Len(q) + 1)
           p    == LastSub(rest, q) IN
       IF p = 0 THEN MultiLine(ls, i, rest, q)
       ELSE LET val == Upto(rest, p - 1) IN
            Got(IF o.unescDQ /\ q = <<DQ>> THEN Replace(val, <<BSL, DQ>>, <<DQ>>) ELSE val,
                <<>>, i)
  ELSE LET body == TrimRight(line) IN
  IF ~o.ignCont /\ body[Len(body)] = BSL
  THEN Continued(ls, i, Upto(body, Len(body) - 1))
  ELSE LET cp  == InlineCommentAt(o, body)
           com == IF cp = 0 THEN <<>> ELSE From(body, cp)
           val == IF cp = 0 THEN body ELSE Trim(Upto(body, cp - 1)) IN
  IF ~o.keepQ /\ (SurroundedBy(val, SQ) \/ SurroundedBy(val, DQ))
  THEN Got(SubSeq(val, 2, Len(val) - 1), com, i)
  ELSE IF o.unescCS
  THEN Got(Replace(Replace(val, <<BSL, ";">>, <<";">>), <<BSL, "#">>, <<"#">>), com, i)
  ELSE IF o.py /\ endsLF(line)
  THEN LET r == Indented(ls, i, val) IN [r EXCEPT !.com = com]
  ELSE Got(val, com, i)

------------------------------------------------------------------------------
(* Key names: [n, rest, err]; rest is what follows the delimiter. *)

ReadKeyName(o, line) ==
  LET D == {o.delims[k] : k \in 1..Len(o.delims)}
      q == IF line[1] = DQ
           THEN IF LongerThan(line, 6) /\ StartsWith(line, TDQ) THEN TDQ ELSE <<DQ>>
           ELSE IF line[1] = BT THEN <<BT>> ELSE <<>> IN
  IF q # <<>>
  THEN LET p == IdxSub(line, Len(q) + 1, q) IN
       IF p = 0 THEN [n |-> <<>>, rest |-> <<>>, err |-> "other"]
       ELSE LET e == IdxAny(line, p + Len(q), D) IN
            IF e = 0 THEN [n |-> <<>>, rest |-> <<>>, err |-> "delim"]
            ELSE [n |-> Trim(SubSeq(line, Len(q) + 1, p - 1)), rest |-> From(line, e + 1), err |-> ""]
  ELSE LET e == IdxAny(line, 1, D) IN
       IF e = 0 THEN [n |-> <<>>, rest |-> <<>>, err |-> "delim"]
       ELSE IF e = 1 THEN [n |-> <<>>, rest |-> <<>>, err |-> "empty"]
       ELSE [n |-> Trim(Upto(line, e - 1)), rest |-> From(line, e + 1), err |-> ""]

------------------------------------------------------------------------------
(* Entries *)

Fail(ps, kind) == [ps EXCEPT !.err = kind]

SectionEntry(ps, line) ==
  LET cl == LastC(line, "]") IN
  IF cl = 0 THEN Fail(ps, "other")
  ELSE LET name == SubSeq(line, 2, cl - 1)
           r    == NewSection(ps.d, name)
           o    == ps.d.o IN
  IF r.e THEN Fail(ps, "other")
  ELSE [ps EXCEPT
          !.d   = SetSecComment(r.d, r.si, Trim(ps.com \o CommentFrom(From(line, cl + 1)))),
          !.si  = r.si,
          !.com = <<>>, !.cnt = 1, !.le = FALSE,
          !.raw = \E k \in 1..Len(o.unparse) :
                    \/ o.unparse[k] = name
                    \/ FoldsSec(o) /\ Lower(o.unparse[k]) = Lower(name)]

RawEntry(ps, line) ==
  [ps EXCEPT !.d.secs[ps.si].raw = TRUE,
             !.d.secs[ps.si].body = @ \o line]

NestedEntry(ps, line) ==
  LET r == AddNestedAt(ps.d, ps.lk[1], ps.lk[2], Trim(line)) IN
  IF r.e THEN Fail(ps, "other") ELSE [ps EXCEPT !.d = r.d]

BooleanEntry(ps, line) ==
  LET v == ReadValue(ps.d.o, line, ps.ls, ps.i) IN
  IF v.err # "" THEN Fail(ps, v.err)
  ELSE LET r == NewBooleanKey(ps.d, ps.si, v.v) IN
  IF r.e THEN Fail(ps, "other")
  ELSE [ps EXCEPT !.d = SetKeyComment(r.d, ps.si, r.ki, Trim(ps.com \o v.com)),
                  !.com = <<>>, !.i = v.i]

KeyEntry(ps, kn) ==
  LET auto == kn.n = <<"-">>
      name == IF auto THEN <<"#">> \o Dec(ps.cnt) ELSE kn.n
      v    == ReadValue(ps.d.o, kn.rest, ps.ls, ps.i) IN
  IF v.err # "" THEN Fail(ps, v.err)
  ELSE LET r == NewKey(ps.d, ps.si, name, v.v) IN
  IF r.e THEN Fail(ps, "other")
  ELSE [ps EXCEPT
          !.d   = SetKeyComment([r.d EXCEPT !.secs[ps.si].keys[r.ki].auto = auto],
                                ps.si, r.ki, Trim(ps.com \o v.com)),
          !.com = <<>>, !.i = v.i,
          !.cnt = IF auto THEN @ + 1 ELSE @,
          !.le  = v.v = <<>>,
          !.lk  = <<ps.si, r.ki>>]

(* One entry.  "line" is the entry's first line; i already points past it. *)
ParseStep(ps0) ==
  LET line0 == ps0.ls[ps0.i]
      ps    == [ps0 EXCEPT !.i = @ + 1]
      o     == ps.d.o IN
  IF o.nested /\ ps.le /\ line0 # <<>> /\ line0[1] \in {" ", TAB}
  THEN NestedEntry(ps, line0)
  ELSE LET line == TrimLeft(line0) IN
  IF line = <<>> THEN ps
  ELSE IF line[1] \in CommentChars THEN [ps EXCEPT !.com = @ \o line]
  ELSE IF line[1] = "[" THEN SectionEntry(ps, line)
  ELSE IF ps.raw THEN RawEntry(ps, line)
  ELSE LET kn == ReadKeyName(o, line) IN
  CASE kn.err = ""                     -> KeyEntry(ps, kn)
    [] kn.err = "delim" /\ o.bool      -> BooleanEntry(ps, line)
    [] kn.err \in {"delim", "empty"} /\ ~(kn.err = "delim" /\ o.bool) /\ o.skip -> ps
    [] OTHER                           -> Fail(ps, kn.err)

ParseDone(ps) == ps.err # "" \/ ps.i > Len(ps.ls)

RECURSIVE ParseRun(_)
ParseRun(ps) == IF ParseDone(ps) THEN ps ELSE ParseRun(ParseStep(ps))

(* A byte-order mark at the very start is not part of the text. *)
Mark == "﻿"
StripMark(t) ==
  IF t # <<>> /\ t[1] = Mark THEN Tail(t)
  ELSE IF Len(t) >= 2 /\ <<t[1], t[2]>> \in {<<"", "">>, <<"", "">>}
       THEN From(t, 3)
  ELSE t

(* Parse text into d: [d, err].  On an error the entries before it stay.   *)
ParseText(d, text) ==
  LET ps == ParseRun(StartParse(d, StripMark(text))) IN [d |-> ps.d, err |-> ps.err]

------------------------------------------------------------------------------
(* Sources: [k, t] with kind k: "text" delivers t; "missing" cannot be     *)
(* opened because it does not exist; "denied" cannot be opened otherwise;  *)
(* "fault" delivers t and then fails.                                      *)

ReadSource(d, s) ==
  CASE s.k = "text"    -> ParseText(d, s.t)
    [] s.k = "missing" -> [d |-> d, err |-> "notexist"]
    [] s.k = "denied"  -> [d |-> d, err |-> "denied"]
    [] s.k = "fault"   -> [d |-> d, err |-> "fault"]

RECURSIVE ReadSources(_, _)
ReadSources(d, srcs) ==
  IF srcs = <<>> THEN [d |-> d, err |-> ""]
  ELSE LET r == ReadSource(d, Head(srcs)) IN
  IF r.err = "" THEN IF d.o.short THEN r ELSE ReadSources(r.d, Tail(srcs))
  ELSE IF r.err = "notexist" /\ d.o.loose
       THEN ReadSources(ParseText(r.d, <<>>).d, Tail(srcs))
       ELSE r

(* Sources of a type that cannot be read from are refused before any is    *)
(* read.                                                                   *)
ReadChecked(d, srcs, new) ==
  IF \E i \in 1..Len(new) : new[i].k = "badtype" THEN [d |-> d, err |-> "other"] ELSE ReadSources(d, srcs)
Load(o, srcs) == ReadChecked(MkDoc(o), srcs, srcs)

=============================================================================
