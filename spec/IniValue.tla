------------------------------ MODULE IniValue ------------------------------
(***************************************************************************)
(* Reading a value: variable references, typed conversions, lists.         *)
(*                                                                         *)
(* Numbers are decimal texts (TLC integers have 32 bits): a magnitude is a *)
(* sequence of decimal digits, least significant first, without leading    *)
(* zeros; zero is <<>>.                                                    *)
(***************************************************************************)
EXTENDS IniDoc

MaxRounds == 99

------------------------------------------------------------------------------
(* References  %(name)s *)

(* First reference at or after i: [p, c] with the positions of % and of ). *)
RECURSIVE RefFrom(_, _)
RefFrom(t, i) ==
  LET p == IdxSub(t, i, <<"%", "(">>) IN
  IF p = 0 THEN [p |-> 0, c |-> 0]
  ELSE LET c == IdxC(t, p + 2, ")") IN
       IF c = 0 THEN [p |-> 0, c |-> 0]
       ELSE IF c > p + 2 /\ c < Len(t) /\ t[c + 1] = "s" THEN [p |-> p, c |-> c]
       ELSE RefFrom(t, p + 1)

(* The key a reference in key <<si, ki>> denotes: [d, pos]; looking in the *)
(* default section brings that section into being.                         *)
RefTarget(d, si, ki, name) ==
  LET own == FindKey(d, si, name) IN
  IF own[1] # 0 /\ own # <<si, ki>> THEN [d |-> d, pos |-> own]
  ELSE LET r == GetOrNewSection(d, <<>>) IN [d |-> r.d, pos |-> FindKey(r.d, r.si, name)]

(* References that multiply are not followed beyond this length; the        *)
(* histories only say that such a call returned (with a long result).       *)
LongText == 9000

RECURSIVE Expand(_, _, _, _, _)
Expand(d, si, ki, t, n) ==
  LET ref == RefFrom(t, 1) IN
  IF n = 0 \/ ref.p = 0 \/ Len(t) > LongText THEN [d |-> d, v |-> t]
  ELSE LET tg == RefTarget(d, si, ki, SubSeq(t, ref.p + 2, ref.c - 1)) IN
       IF tg.pos[1] = 0 THEN [d |-> tg.d, v |-> t]
       ELSE Expand(tg.d, si, ki,
                   Replace(t, SubSeq(t, ref.p, ref.c + 1), tg.d.secs[tg.pos[1]].keys[tg.pos[2]].v),
                   n - 1)

(* The value mapper the application installed ("" for none).               *)
Mapped(m, t) == CASE m = "upper" -> Upper(t)
                  [] m = "wrap"  -> <<"<">> \o t \o <<">">>
                  [] OTHER       -> t

Transform(d, m, si, ki, t) == Expand(d, si, ki, Mapped(m, t), MaxRounds)
KeyString(d, m, si, ki) == Transform(d, m, si, ki, d.secs[si].keys[ki].v)

------------------------------------------------------------------------------
(* Magnitudes *)

Dig == [c \in {"0","1","2","3","4","5","6","7","8","9"} |->
          CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
            [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9]
HexDig == [c \in {"a","b","c","d","e","f"} |->
          CASE c = "a" -> 10 [] c = "b" -> 11 [] c = "c" -> 12
            [] c = "d" -> 13 [] c = "e" -> 14 [] c = "f" -> 15]
IsDec(c) == c \in DOMAIN Dig
DigitOf(c) == LET l == LowerC(c) IN
              IF IsDec(c) THEN Dig[c] ELSE IF l \in DOMAIN HexDig THEN HexDig[l] ELSE 99

(* n * b + a for small b and a *)
RECURSIVE MulAdd(_, _, _)
MulAdd(n, b, a) ==
  IF n = <<>> THEN (IF a = 0 THEN <<>> ELSE <<a % 10>> \o MulAdd(<<>>, b, a \div 10))
  ELSE LET x == n[1] * b + a
           r == MulAdd(Tail(n), b, x \div 10) IN
       IF x % 10 = 0 /\ r = <<>> THEN <<>> ELSE <<x % 10>> \o r
RECURSIVE Add(_, _, _)
Add(a, b, c) ==
  IF a = <<>> /\ b = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET x == (IF a = <<>> THEN 0 ELSE a[1]) + (IF b = <<>> THEN 0 ELSE b[1]) + c IN
       <<x % 10>> \o Add(IF a = <<>> THEN <<>> ELSE Tail(a), IF b = <<>> THEN <<>> ELSE Tail(b), x \div 10)
RECURSIVE LexCmp(_, _, _)
LexCmp(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1)
                   ELSE LexCmp(a, b, i - 1)
MagCmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE LexCmp(a, b, Len(a))
MagOf(t) == FoldLeft(LAMBDA n, c : MulAdd(n, 10, Dig[c]), <<>>, t)
MagText(n) == IF n = <<>> THEN <<"0">> ELSE Reverse([i \in 1..Len(n) |-> Digits[n[i] + 1]])

Max63 == MagOf(X("9223372036854775807"))
Min63 == MagOf(X("9223372036854775808"))
Max64 == MagOf(X("18446744073709551615"))
MaxMag(bits, neg) ==
  CASE bits = 8  -> (IF neg THEN MagOf(X("128")) ELSE MagOf(X("127")))
    [] bits = 16 -> (IF neg THEN MagOf(X("32768")) ELSE MagOf(X("32767")))
    [] bits = 32 -> (IF neg THEN MagOf(X("2147483648")) ELSE MagOf(X("2147483647")))
    [] OTHER     -> (IF neg THEN Min63 ELSE Max63)
MaxUMag(bits) ==
  CASE bits = 16 -> MagOf(X("65535")) [] bits = 32 -> MagOf(X("4294967295")) [] OTHER -> Max64

No == [ok |-> FALSE, v |-> <<>>]
Yes(v) == [ok |-> TRUE, v |-> v]
SignedText(neg, n) == (IF neg /\ n # <<>> THEN <<"-">> ELSE <<>>) \o MagText(n)

(* Literal without sign: [ok, mag].  Prefixes 0x 0o 0b 0 select the base;  *)
(* underscores may separate digits (and the prefix from the digits).       *)
BaseOf(t) ==
  IF Len(t) >= 2 /\ t[1] = "0"
  THEN CASE Len(t) >= 3 /\ LowerC(t[2]) = "x" -> <<16, 3>>
         [] Len(t) >= 3 /\ LowerC(t[2]) = "o" -> <<8, 3>>
         [] Len(t) >= 3 /\ LowerC(t[2]) = "b" -> <<2, 3>>
         [] OTHER -> <<8, 2>>
  ELSE <<10, 1>>
(* Underscores stand only between digits or after the base prefix.         *)
UnderOK(t, from) ==
  \A i \in from..Len(t) : t[i] = "_" =>
     /\ i < Len(t) /\ t[i + 1] # "_"
     /\ (i = from => from > 1)
     /\ (i > from => t[i - 1] # "_")
Unsigned(t) ==
  IF t = <<>> THEN [ok |-> FALSE, mag |-> <<>>]
  ELSE LET b == BaseOf(t)
           ds == SelectSeq(From(t, b[2]), LAMBDA c : c # "_") IN
       IF ds = <<>> \/ ~UnderOK(t, b[2]) \/ \E i \in 1..Len(ds) : DigitOf(ds[i]) >= b[1]
       THEN [ok |-> FALSE, mag |-> <<>>]
       ELSE [ok |-> TRUE, mag |-> FoldLeft(LAMBDA n, c : MulAdd(n, b[1], DigitOf(c)), <<>>, ds)]

ParseInt(t, bits) ==
  IF t = <<>> THEN No
  ELSE LET signed == t[1] \in {"+", "-"}
           neg == t[1] = "-"
           u == Unsigned(IF signed THEN Tail(t) ELSE t) IN
       IF ~u.ok \/ MagCmp(u.mag, MaxMag(bits, neg)) > 0 THEN No
       ELSE Yes(SignedText(neg, u.mag))
ParseUint(t, bits) ==
  LET u == Unsigned(t) IN
  IF ~u.ok \/ MagCmp(u.mag, MaxUMag(bits)) > 0 THEN No ELSE Yes(MagText(u.mag))

------------------------------------------------------------------------------
(* Booleans *)
TrueTexts  == {X("1"), X("t"), X("T"), X("true"), X("TRUE"), X("True"), X("YES"), X("yes"),
               X("Yes"), X("y"), X("ON"), X("on"), X("On")}
FalseTexts == {X("0"), X("f"), X("F"), X("false"), X("FALSE"), X("False"), X("NO"), X("no"),
               X("No"), X("n"), X("OFF"), X("off"), X("Off")}
ParseBool(t) == IF t \in TrueTexts THEN Yes(X("true")) ELSE IF t \in FalseTexts THEN Yes(X("false")) ELSE No

------------------------------------------------------------------------------
(* Floats: decimal literals of at most 15 significant digits, whose exact  *)
(* decimal value is what the shortest rendering of the float shows.        *)
AllDec(t) == \A i \in 1..Len(t) : IsDec(t[i])
StripLead(t) == LET i == IdxNot(t, 1, {"0"}) IN IF i = 0 THEN <<>> ELSE From(t, i)
StripTrail(t) == Upto(t, SelectLastInSeq(t, LAMBDA c : c # "0"))
Zeros(n) == <<>> \o [i \in 1..n |-> "0"]
RECURSIVE NatOf(_)
NatOf(t) == IF t = <<>> THEN 0 ELSE NatOf(Upto(t, Len(t) - 1)) * 10 + Dig[t[Len(t)]]

(* digits with the decimal point after position p (may lie outside)        *)
DecText(ds, p) ==
  LET lead == IF p >= Len(ds) THEN ds \o Zeros(p - Len(ds)) ELSE IF p > 0 THEN Upto(ds, p) ELSE <<>>
      frac == IF p >= Len(ds) THEN <<>> ELSE IF p > 0 THEN From(ds, p + 1) ELSE Zeros(-p) \o ds
      l == StripLead(lead)
      f == StripTrail(frac) IN
  (IF l = <<>> THEN <<"0">> ELSE l) \o (IF f = <<>> THEN <<>> ELSE <<".">> \o f)

InfTexts == {X("inf"), X("infinity")}
(* Underscores may separate digits. *)
RECURSIVE ParseFloat(_)
ParseFloat(t) ==
  IF t = <<>> THEN No
  ELSE IF HasC(t, "_")
  THEN IF \A i \in 1..Len(t) : t[i] = "_" => i > 1 /\ i < Len(t) /\ IsDec(t[i - 1]) /\ IsDec(t[i + 1])
       THEN ParseFloat(SelectSeq(t, LAMBDA c : c # "_")) ELSE No
  ELSE LET neg == t[1] = "-"
           body == IF t[1] \in {"+", "-"} THEN Tail(t) ELSE t
           low == Lower(body)
           e == IdxAny(low, 1, {"e"})
           mant == IF e = 0 THEN low ELSE Upto(low, e - 1)
           expo == IF e = 0 THEN <<"0">> ELSE From(low, e + 1)
           eneg == expo # <<>> /\ expo[1] = "-"
           edig == IF expo # <<>> /\ expo[1] \in {"+", "-"} THEN Tail(expo) ELSE expo
           pt == IdxC(mant, 1, ".")
           ip == IF pt = 0 THEN mant ELSE Upto(mant, pt - 1)
           fp == IF pt = 0 THEN <<>> ELSE From(mant, pt + 1) IN
  IF low \in InfTexts THEN Yes((IF neg THEN <<"-">> ELSE <<"+">>) \o X("Inf"))
  ELSE IF low = X("nan") THEN (IF t[1] \in {"+", "-"} THEN No ELSE Yes(X("NaN")))
  ELSE IF ip \o fp = <<>> \/ ~AllDec(ip) \/ ~AllDec(fp) \/ edig = <<>> \/ ~AllDec(edig) THEN No
  ELSE LET x == NatOf(edig)
           ds == ip \o fp
           v == DecText(ds, Len(ip) + (IF eneg THEN -x ELSE x)) IN
       IF x > 300 THEN No ELSE Yes((IF neg /\ v # <<"0">> THEN <<"-">> ELSE <<>>) \o v)

------------------------------------------------------------------------------
(* Durations, in nanoseconds *)
Units == << <<X("ns"), <<1>> >>, <<X("us"), <<0,0,0,1>> >>, <<X("ms"), <<0,0,0,0,0,0,1>> >>,
            <<X("s"), <<0,0,0,0,0,0,0,0,0,1>> >>, <<X("m"), <<0,0,0,0,0,0,0,0,0,0,6>> >>,
            <<X("h"), <<0,0,0,0,0,0,0,0,0,0,0,6,3>> >> >>
UnitOf(t) == SelectInSeq(Units, LAMBDA u : u[1] = t)
RECURSIVE MulMag(_, _)
MulMag(a, b) == IF b = <<>> THEN <<>>
                ELSE LET r == MulMag(a, Tail(b)) IN
                     Add(MulAdd(a, b[1], 0), IF r = <<>> THEN <<>> ELSE <<0>> \o r, 0)
(* drop the k last decimal digits *)
DropDigits(n, k) == IF Len(n) <= k THEN <<>> ELSE From(n, k + 1)
Clean(n) == LET l == SelectLastInSeq(n, LAMBDA x : x # 0) IN Upto(n, l)

RECURSIVE DurParts(_, _)
DurParts(t, acc) ==
  IF t = <<>> THEN [ok |-> TRUE, mag |-> acc]
  ELSE LET j == IdxNot(t, 1, DOMAIN Dig \cup {"."})
           num == IF j = 0 THEN t ELSE Upto(t, j - 1)
           k == IF j = 0 THEN 0 ELSE IdxAny(t, j, DOMAIN Dig \cup {"."})
           unit == IF j = 0 THEN <<>> ELSE IF k = 0 THEN From(t, j) ELSE SubSeq(t, j, k - 1)
           pt == IdxC(num, 1, ".")
           ip == IF pt = 0 THEN num ELSE Upto(num, pt - 1)
           fp == IF pt = 0 THEN <<>> ELSE From(num, pt + 1)
           u == UnitOf(unit) IN
  IF ip \o fp = <<>> \/ ~AllDec(fp) \/ u = 0 THEN [ok |-> FALSE, mag |-> <<>>]
  ELSE LET part == DropDigits(MulMag(Units[u][2], MagOf(ip \o fp)), Len(fp)) IN
       DurParts(IF k = 0 THEN <<>> ELSE From(t, k), Clean(Add(acc, part, 0)))
ParseDuration(t) ==
  IF t = <<>> THEN No
  ELSE LET neg == t[1] = "-"
           body == IF t[1] \in {"+", "-"} THEN Tail(t) ELSE t IN
  IF body = <<"0">> THEN Yes(<<"0">>)
  ELSE IF body = <<>> THEN No
  ELSE LET r == DurParts(body, <<>>) IN
       IF ~r.ok \/ MagCmp(r.mag, IF neg THEN Min63 ELSE Max63) > 0 THEN No
       ELSE Yes(SignedText(neg, r.mag))

------------------------------------------------------------------------------
(* Times *)
TwoAt(t, i) == Dig[t[i]] * 10 + Dig[t[i + 1]]
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
DaysIn(y, m) == CASE m \in {4, 6, 9, 11} -> 30 [] m = 2 -> (IF Leap(y) THEN 29 ELSE 28) [] OTHER -> 31
DateOK(t) ==
  /\ Len(t) = 10 /\ t[5] = "-" /\ t[8] = "-"
  /\ \A i \in {1, 2, 3, 4, 6, 7, 9, 10} : IsDec(t[i])
  /\ LET y == NatOf(Upto(t, 4)) m == TwoAt(t, 6) dd == TwoAt(t, 9) IN
     m \in 1..12 /\ dd \in 1..DaysIn(y, m)
ClockOK(t) ==
  /\ Len(t) = 8 /\ t[3] = ":" /\ t[6] = ":"
  /\ \A i \in {1, 2, 4, 5, 7, 8} : IsDec(t[i])
  /\ TwoAt(t, 1) < 24 /\ TwoAt(t, 4) < 60 /\ TwoAt(t, 7) < 60
ZoneOK(t) ==
  \/ t = <<"Z">>
  \/ /\ Len(t) = 6 /\ t[1] \in {"+", "-"} /\ t[4] = ":"
     /\ \A i \in {2, 3, 5, 6} : IsDec(t[i])
     /\ TwoAt(t, 2) <= 24 /\ TwoAt(t, 5) < 60
(* A time is shown with the fraction of the second (if any, at most nine   *)
(* digits) and in its own zone.                                            *)
ParseRFC3339(t) ==
  IF Len(t) < 20 \/ t[11] # "T" \/ ~DateOK(Upto(t, 10)) \/ ~ClockOK(SubSeq(t, 12, 19)) THEN No
  ELSE LET f == IF t[20] \in {".", ","} THEN LET e == IdxNot(t, 21, DOMAIN Dig) IN IF e < 22 THEN 0 ELSE e ELSE 20 IN
       IF f = 0 \/ ~ZoneOK(From(t, f)) THEN No
       ELSE LET z == From(t, f)
                fr == IF f = 20 THEN <<>> ELSE SubSeq(t, 21, IF f - 1 > 29 THEN 29 ELSE f - 1)
                fs == StripTrail(fr) IN
            Yes(Upto(t, 19) \o (IF fs = <<>> THEN <<>> ELSE <<".">> \o fs)
                           \o (IF z \in {X("+00:00"), X("-00:00")} THEN <<"Z">> ELSE z))
(* Parts of a time as it is shown.                                         *)
ZoneAt(t) == IdxAny(t, 20, {"Z", "+", "-"})
FracOf(t) == SubSeq(t, 21, ZoneAt(t) - 1)
WholeSeconds(t) == Upto(t, 19) \o From(t, ZoneAt(t))
ZoneSeconds(t) == LET z == ZoneAt(t) IN
                  IF t[z] = "Z" THEN 0
                  ELSE (IF t[z] = "-" THEN -1 ELSE 1) * (TwoAt(t, z + 1) * 3600 + TwoAt(t, z + 4) * 60)
DayNumber(y, m, d) == LET p == y - 1 IN
  365 * p + p \div 4 - p \div 100 + p \div 400 + d
  + FoldLeft(LAMBDA a, k : a + DaysIn(y, k), 0, [k \in 1..(m - 1) |-> k])
(* The instant: day, second of the day, fraction.                          *)
Instant(t) ==
  LET s == TwoAt(t, 12) * 3600 + TwoAt(t, 15) * 60 + TwoAt(t, 18) - ZoneSeconds(t) IN
  << DayNumber(NatOf(Upto(t, 4)), TwoAt(t, 6), TwoAt(t, 9)) + s \div 86400, s % 86400, FracOf(t) >>
ParseDate(t) == IF DateOK(t) THEN Yes(t \o X("T00:00:00Z")) ELSE No

------------------------------------------------------------------------------
(* ty: "bool" "int" "uint" "int8".. "uint64" "float" "dur" "time" "date"   *)
ParseAs(ty, t) ==
  CASE ty = "bool" -> ParseBool(t)
    [] ty \in {"int", "int64"} -> ParseInt(t, 64)
    [] ty = "int8" -> ParseInt(t, 8) [] ty = "int16" -> ParseInt(t, 16) [] ty = "int32" -> ParseInt(t, 32)
    [] ty \in {"uint", "uint64"} -> ParseUint(t, 64)
    [] ty = "uint16" -> ParseUint(t, 16) [] ty = "uint32" -> ParseUint(t, 32)
    [] ty = "float" -> ParseFloat(t)
    [] ty = "dur" -> ParseDuration(t)
    [] ty = "time" -> ParseRFC3339(t)
    [] ty = "date" -> ParseDate(t)
    [] ty = "string" -> Yes(t)
ZeroOf(ty) == CASE ty = "bool" -> X("false") [] ty \in {"time", "date"} -> X("0001-01-01T00:00:00Z")
                [] ty = "string" -> <<>> [] OTHER -> <<"0">>

(* Text a default is stored as when it becomes the key's value.            *)
DurNames == << <<X("0"), X("0s")>>, <<X("1500000000"), X("1.5s")>>, <<X("90000000000"), X("1m30s")>>,
               <<X("3600000000000"), X("1h0m0s")>>, <<X("-5000000000"), X("-5s")>>, <<X("7"), X("7ns")>> >>
StoredText(ty, v) ==
  CASE ty = "dur" -> DurNames[SelectInSeq(DurNames, LAMBDA p : p[1] = v)][2]
    [] ty = "date" -> Upto(v, 10)
    [] ty = "time" -> WholeSeconds(v)
    [] OTHER -> v

(* Order of two values of a numeric or time type, as texts                 *)
FracCmp(a, b) == LET n == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
                     pa == a \o Zeros(n - Len(a)) pb == b \o Zeros(n - Len(b)) IN
                 MagCmp(MagOf(pa), MagOf(pb))
NumCmp(a, b) ==
  LET na == a[1] = "-" nb == b[1] = "-"
      ua == IF na THEN Tail(a) ELSE a
      ub == IF nb THEN Tail(b) ELSE b
      pa == IdxC(ua, 1, ".") pb == IdxC(ub, 1, ".")
      ia == IF pa = 0 THEN ua ELSE Upto(ua, pa - 1) ib == IF pb = 0 THEN ub ELSE Upto(ub, pb - 1)
      fa == IF pa = 0 THEN <<>> ELSE From(ua, pa + 1) fb == IF pb = 0 THEN <<>> ELSE From(ub, pb + 1)
      m == LET c == MagCmp(MagOf(ia), MagOf(ib)) IN IF c # 0 THEN c ELSE FracCmp(fa, fb) IN
  IF na /\ ~nb THEN -1
  ELSE IF ~na /\ nb THEN 1
  ELSE IF na THEN -m ELSE m
(* Times are ordered as instants.                                          *)
TimeCmp(a, b) ==
  LET i == Instant(a) j == Instant(b)
      C(x, y) == IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0 IN
  IF i[1] # j[1] THEN C(i[1], j[1]) ELSE IF i[2] # j[2] THEN C(i[2], j[2]) ELSE FracCmp(i[3], j[3])
ValCmp(ty, a, b) == IF ty \in {"time", "date"} THEN TimeCmp(a, b) ELSE NumCmp(a, b)
SameVal(ty, a, b) == IF ty \in {"time", "date"} THEN TimeCmp(a, b) = 0 ELSE a = b

InResult(ty, t, def, cands) ==
  LET r == ParseAs(ty, t) IN
  IF r.ok /\ \E i \in 1..Len(cands) : SameVal(ty, cands[i], r.v) THEN r.v ELSE def
RangeResult(ty, t, def, lo, hi) ==
  LET r == ParseAs(ty, t) IN
  IF r.ok /\ ValCmp(ty, r.v, lo) >= 0 /\ ValCmp(ty, r.v, hi) <= 0 THEN r.v ELSE def

------------------------------------------------------------------------------
(* Lists *)
RECURSIVE SplitEsc(_, _, _, _)
SplitEsc(t, i, delim, cur) ==
  IF i > Len(t) THEN (IF cur = <<>> THEN <<>> ELSE << Trim(cur) >>)
  ELSE IF t[i] = BSL
       THEN IF i = Len(t) THEN << Trim(Append(cur, BSL)) >>
            ELSE IF MatchAt(t, i + 1, delim)
            THEN SplitEsc(t, i + 1 + Len(delim), delim, cur \o delim)
            ELSE IF t[i + 1] = BSL
            THEN SplitEsc(t, i + 2, delim, Append(cur, BSL))
            ELSE SplitEsc(t, i + 2, delim, cur \o <<BSL, t[i + 1]>>)
  ELSE IF MatchAt(t, i, delim) THEN << Trim(cur) >> \o SplitEsc(t, i + Len(delim), delim, <<>>)
  ELSE SplitEsc(t, i + 1, delim, Append(cur, t[i]))
Parts(t, delim) == SplitEsc(t, 1, delim, <<>>)

(* mode: "lenient" "valid" "strict" *)
ListAs(ty, mode, parts) ==
  LET rs == <<>> \o [i \in 1..Len(parts) |-> ParseAs(ty, parts[i])] IN
  CASE mode = "strict" ->
         IF \E i \in 1..Len(rs) : ~rs[i].ok THEN [e |-> TRUE, v |-> <<>>]
         ELSE [e |-> FALSE, v |-> <<>> \o [i \in 1..Len(rs) |-> rs[i].v]]
    [] mode = "valid" ->
         LET good == SelectSeq(rs, LAMBDA r : r.ok) IN
         [e |-> FALSE, v |-> <<>> \o [i \in 1..Len(good) |-> good[i].v]]
    [] OTHER -> [e |-> FALSE, v |-> <<>> \o [i \in 1..Len(rs) |-> IF rs[i].ok THEN rs[i].v ELSE ZeroOf(ty)]]

(* Parts of all values of a key with shadows: split, trimmed, expanded.    *)
RECURSIVE TransformAll(_, _, _, _, _)
TransformAll(d, m, si, ki, ts) ==
  IF ts = <<>> THEN [d |-> d, v |-> <<>>]
  ELSE LET r == Transform(d, m, si, ki, Trim(Head(ts)))
           q == TransformAll(r.d, m, si, ki, Tail(ts)) IN
       [d |-> q.d, v |-> <<r.v>> \o q.v]
ShadowParts(d, m, si, ki, delim) ==
  LET vals == ShadowValues(d.secs[si].keys[ki]) IN
  TransformAll(d, m, si, ki, Flat([i \in 1..Len(vals) |-> Split(vals[i], delim)]))

=============================================================================
