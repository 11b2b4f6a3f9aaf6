------------------------------- MODULE Chars -------------------------------
(***************************************************************************)
(* Text as the rest of the specification sees it.  A Text is a sequence of *)
(* characters; a character is a TLA+ string of length one.  One character  *)
(* stands for one Unicode code point of well-formed UTF-8, or for one byte *)
(* of ill-formed input (bytes b are represented by the private-use code    *)
(* point U+E000 + b).  TLC strings (from JSON traces and from literals in  *)
(* this specification) are converted with X.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

X(s) == <<>> \o [i \in 1..Len(s) |-> SubSeq(s, i, i)]
XS(ss) == <<>> \o [i \in 1..Len(ss) |-> X(ss[i])]

LF == "\n"
CR == "\r"
TAB == "\t"
FF == "\f"
BSL == "\\"
DQ == "\""
SQ == "'"
BT == "`"
TDQ == <<DQ, DQ, DQ>>

(* The white space of Unicode, by the number of its bytes. *)
Space3 == {" ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", "　"}
Space == {" ", "\t", "\n", "\r", "\f", "", "", " "} \cup Space3

UpperSeq == X("ABCDEFGHIJKLMNOPQRSTUVWXYZÉÀÜ")
LowerSeq == X("abcdefghijklmnopqrstuvwxyzéàü")
LowerFcn == [i \in 1..Len(UpperSeq) |-> <<UpperSeq[i], LowerSeq[i]>>]
UpperSet == {UpperSeq[i] : i \in 1..Len(UpperSeq)}
LowerSet == {LowerSeq[i] : i \in 1..Len(LowerSeq)}
LowerMap == [c \in UpperSet |-> LowerSeq[CHOOSE i \in 1..Len(UpperSeq) : UpperSeq[i] = c]]
UpperMap == [c \in LowerSet |-> UpperSeq[CHOOSE i \in 1..Len(LowerSeq) : LowerSeq[i] = c]]
LowerC(c) == IF c \in UpperSet THEN LowerMap[c] ELSE c
UpperC(c) == IF c \in LowerSet THEN UpperMap[c] ELSE c
Lower(t) == IF \E i \in 1..Len(t) : t[i] \in UpperSet
            THEN <<>> \o [i \in 1..Len(t) |-> LowerC(t[i])] ELSE t
Upper(t) == <<>> \o [i \in 1..Len(t) |-> UpperC(t[i])]

(* Number of bytes of a character in the encoded text. *)
Wide2 == {"", " ", "é", "à", "ü", "É", "À", "Ü", "ß"}
Wide3 == {"世", "界", "，", "、", "﻿"} \cup Space3
Width(c) == IF c \in Wide2 THEN 2 ELSE IF c \in Wide3 THEN 3 ELSE 1
TextWidth(t) == FoldLeft(LAMBDA a, c : a + Width(c), 0, t)

(* More than n bytes long. *)
LongerThan(t, n) == Len(t) > n \/ TextWidth(t) > n

(* Index of the first character at or after i that is in S; 0 if none. *)
IdxWhere(t, i, Test(_)) ==
  IF i > Len(t) THEN 0
  ELSE IF i = 1 THEN SelectInSeq(t, Test)
  ELSE LET j == SelectInSeq(SubSeq(t, i, Len(t)), Test) IN IF j = 0 THEN 0 ELSE i + j - 1
IdxAny(t, i, S) == IdxWhere(t, i, LAMBDA c : c \in S)
IdxC(t, i, ch)  == IdxWhere(t, i, LAMBDA c : c = ch)
IdxNot(t, i, S) == IdxWhere(t, i, LAMBDA c : c \notin S)
LastC(t, ch) == SelectLastInSeq(t, LAMBDA c : c = ch)
HasAny(t, S) == \E i \in 1..Len(t) : t[i] \in S
HasC(t, ch) == \E i \in 1..Len(t) : t[i] = ch

From(t, i) == SubSeq(t, i, Len(t))
Upto(t, i) == SubSeq(t, 1, i)

MatchAt(t, i, sub) == /\ i + Len(sub) - 1 <= Len(t)
                      /\ \A k \in 1..Len(sub) : t[i + k - 1] = sub[k]
StartsWith(t, sub) == MatchAt(t, 1, sub)

(* First / last occurrence of a non-empty text as a factor; 0 if none. *)
RECURSIVE IdxSub(_, _, _)
IdxSub(t, i, sub) ==
  LET j == IdxC(t, i, sub[1]) IN
  IF j = 0 THEN 0 ELSE IF MatchAt(t, j, sub) THEN j ELSE IdxSub(t, j + 1, sub)
RECURSIVE LastSubFrom(_, _, _)
LastSubFrom(t, i, sub) ==
  LET j == SelectLastInSeq(Upto(t, i), LAMBDA c : c = sub[1]) IN
  IF j = 0 THEN 0 ELSE IF MatchAt(t, j, sub) THEN j ELSE LastSubFrom(t, j - 1, sub)
LastSub(t, sub) == IF Len(t) < Len(sub) THEN 0 ELSE LastSubFrom(t, Len(t) - Len(sub) + 1, sub)

TrimLeft(t) == LET i == IdxNot(t, 1, Space) IN IF i = 0 THEN <<>> ELSE From(t, i)
TrimRight(t) == Upto(t, SelectLastInSeq(t, LAMBDA c : c \notin Space))
Trim(t) == TrimRight(TrimLeft(t))

(* All non-overlapping occurrences, left to right, of a non-empty text. *)
RECURSIVE ReplFrom(_, _, _, _)
ReplFrom(t, i, old, new) ==
  LET j == IdxSub(t, i, old) IN
  IF j = 0 THEN From(t, i)
  ELSE SubSeq(t, i, j - 1) \o new \o ReplFrom(t, j + Len(old), old, new)
Replace(t, old, new) == ReplFrom(t, 1, old, new)

RECURSIVE SplitFrom(_, _, _)
SplitFrom(t, i, sep) ==
  LET j == IdxSub(t, i, sep) IN
  IF j = 0 THEN << From(t, i) >>
  ELSE << SubSeq(t, i, j - 1) >> \o SplitFrom(t, j + Len(sep), sep)
Split(t, sep) == SplitFrom(t, 1, sep)

(* Physical lines: every line but the last ends with its line feed; the    *)
(* last one (possibly empty) is the one that ends at end of input.         *)
RECURSIVE LinesFrom(_, _)
LinesFrom(t, i) ==
  LET j == IdxC(t, i, LF) IN
  IF j = 0 THEN << From(t, i) >> ELSE << SubSeq(t, i, j) >> \o LinesFrom(t, j + 1)
Lines(t) == LinesFrom(t, 1)

Join(ts, sep) ==
  IF ts = <<>> THEN <<>>
  ELSE FoldLeft(LAMBDA a, b : a \o sep \o b, Head(ts), Tail(ts))
RECURSIVE Flat(_)
Flat(ts) == IF ts = <<>> THEN <<>> ELSE Head(ts) \o Flat(Tail(ts))

(* Text of a natural number (decimal). *)
RECURSIVE Dec(_)
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
Dec(n) == IF n < 10 THEN << Digits[n + 1] >> ELSE Dec(n \div 10) \o << Digits[(n % 10) + 1] >>

=============================================================================
