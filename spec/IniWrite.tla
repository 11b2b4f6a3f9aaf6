------------------------------ MODULE IniWrite ------------------------------
(***************************************************************************)
(* The writer: the text a document is saved as, under formatting settings  *)
(*   g == [prettySection, prettyFormat, prettyEqual, defaultHeader, left,  *)
(*         right, lb]    (lb is the line break)                            *)
(***************************************************************************)
EXTENDS IniParse

DefaultFmt == [prettySection |-> TRUE, prettyFormat |-> TRUE, prettyEqual |-> FALSE,
               defaultHeader |-> FALSE, left |-> <<>>, right |-> <<>>, lb |-> <<LF>>]

EqualSign(o, g) == IF g.prettyFormat \/ g.prettyEqual
                   THEN <<" ">> \o o.wdelim \o <<" ">>
                   ELSE g.left \o o.wdelim \o g.right

Spaces(n) == <<>> \o [i \in 1..n |-> " "]

(* Comment lines; sections keep the spacing of lines without a marker.     *)
CommentLine(t, isKey) ==
  IF t # <<>> /\ t[1] \in CommentChars THEN <<t[1], " ">> \o Trim(Tail(t))
  ELSE <<";", " ">> \o (IF isKey THEN Trim(t) ELSE t)
LinesOf(c, lb) == IF lb = <<LF>> THEN Split(c, <<LF>>)
                  ELSE LET ps == Split(c, lb) IN Flat([i \in 1..Len(ps) |-> Split(ps[i], <<LF>>)])
CommentText(c, isKey, lb) ==
  IF c = <<>> THEN <<>>
  ELSE LET ls == LinesOf(c, lb) IN
       Flat([i \in 1..Len(ls) |-> CommentLine(ls[i], isKey) \o lb])

KeyNeedsBacktick(o, n) == HasC(n, DQ) \/ HasAny(n, {o.delims[k] : k \in 1..Len(o.delims)})
KeyNeedsTriple(o, n) == ~KeyNeedsBacktick(o, n) /\ HasC(n, BT)
KeyText(o, k) ==
  IF k.auto THEN <<"-">>
  ELSE IF KeyNeedsBacktick(o, k.n) THEN <<BT>> \o k.n \o <<BT>>
  ELSE IF KeyNeedsTriple(o, k.n) THEN TDQ \o k.n \o TDQ
  ELSE k.n
AlignWidth(o, n) == TextWidth(n) + (IF KeyNeedsBacktick(o, n) THEN 2
                                    ELSE IF KeyNeedsTriple(o, n) THEN 6 ELSE 0)
Align(o, s) == FoldLeft(LAMBDA a, k : IF AlignWidth(o, k.n) > a THEN AlignWidth(o, k.n) ELSE a,
                        0, s.keys)

(* Values that would not be read as they are get quotes that the reader    *)
(* takes off again.                                                        *)
NeedsBacktick(o, v) ==
  \/ ~o.ignInline /\ HasAny(v, CommentChars)
  \/ o.unescCS /\ (IdxSub(v, 1, <<BSL, "#">>) # 0 \/ IdxSub(v, 1, <<BSL, ";">>) # 0)
  \/ ~o.ignCont /\ v # <<>> /\ v[Len(v)] = BSL
  \/ StartsWith(v, TDQ)
  \/ o.unescDQ /\ v # <<>> /\ v[1] = DQ
  \/ ~o.keepQ /\ (SurroundedBy(v, SQ) \/ SurroundedBy(v, DQ))
  \/ Trim(v) # v /\ (o.keepQ \/ HasC(v, DQ))
ValueText(o, v) ==
  IF HasAny(v, {LF, BT}) THEN TDQ \o v \o TDQ
  ELSE IF NeedsBacktick(o, v) THEN <<BT>> \o v \o <<BT>>
  ELSE IF Trim(v) # v THEN <<DQ>> \o v \o <<DQ>>
  ELSE v

(* The last value of a boolean key is written as its name alone, unless the key *)
(* was given another one.                                                      *)
Bare(k, v) == k.bool /\ v = X("true")

KeyLine(o, g, k, al, v, last) ==
  KeyText(o, k) \o
  (IF last /\ Bare(k, v) THEN g.lb
   ELSE (IF g.prettyFormat THEN Spaces(al - TextWidth(KeyText(o, k))) ELSE <<>>)
        \o EqualSign(o, g) \o ValueText(o, v) \o g.lb)

KeyOut(o, g, indent, sn, k, al) ==
  LET ind  == IF indent # <<>> /\ sn # DefaultName THEN indent ELSE <<>>
      vals == LET sv == ShadowValues(k) IN IF sv = <<>> THEN << <<>> >> ELSE sv IN
  (IF k.c = <<>> THEN <<>> ELSE ind \o CommentText(k.c, TRUE, g.lb))
  \o ind
  \o Flat([i \in 1..Len(vals) |-> KeyLine(o, g, k, al, vals[i], i = Len(vals))])
  \o (IF Bare(k, vals[Len(vals)]) THEN <<>>
      ELSE Flat([i \in 1..Len(k.ne) |-> indent \o <<" ", " ">> \o k.ne[i] \o g.lb]))

SectionOut(o, g, indent, s, i, last) ==
  LET header == i > 1 \/ g.defaultHeader \/ Upper(s.n) # DefaultName
      gap    == IF g.prettySection /\ ~last THEN g.lb ELSE <<>>
      open   == s.body # <<>> /\ s.body[Len(s.body)] # LF
      rawgap == IF (g.prettySection \/ open) /\ ~last THEN g.lb ELSE <<>> IN
  CommentText(s.c, FALSE, g.lb)
  \o (IF header THEN <<"[">> \o s.n \o <<"]">> \o g.lb ELSE <<>>)
  \o (IF ~header /\ s.keys = <<>> THEN <<>>
      ELSE IF s.raw THEN s.body \o rawgap
      ELSE LET al == Align(o, s) IN
           Flat([j \in 1..Len(s.keys) |-> KeyOut(o, g, indent, s.n, s.keys[j], al)]) \o gap)

WriteDoc(d, g, indent) ==
  Flat([i \in 1..Len(d.secs) |->
          SectionOut(d.o, g, indent, d.secs[i], i, i = Len(d.secs))])

=============================================================================
