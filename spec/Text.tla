-------------------------------- MODULE Text --------------------------------
(* What texts of intervals and times denote.  Texts are sequences of ASCII    *)
(* codes.  REJECT is the denotation of texts that denote nothing.             *)
EXTENDS BigNat, Calendar
REJECT == <<-1>>
IsDigit(c) == c \in 48..57
IsAlpha(c) == c \in 65..90 \/ c \in 97..122

\* ------------------------------------------------------------- intervals
Factor(u) ==   \* milliseconds per unit as a big number
  CASE u = <<121>>      -> <<2000, 5695, 315>>     \* y  31556952000
    [] u = <<77>>       -> <<6000, 2974, 26>>      \* M  2629746000
    [] u = <<119>>      -> FromInt(WEEK)           \* w
    [] u = <<100>>      -> FromInt(DAY)            \* d
    [] u = <<104>>      -> FromInt(3600000)        \* h
    [] u = <<109>>      -> FromInt(60000)          \* m
    [] u = <<115>>      -> FromInt(1000)           \* s
    [] u = <<109, 115>> -> FromInt(1)              \* ms
    [] OTHER            -> <<>>
Groups(cs) ==   \* a sequence of number-unit groups and nothing else
  /\ cs # <<>> /\ IsDigit(cs[1]) /\ IsAlpha(cs[Len(cs)])
  /\ \A i \in DOMAIN cs : IsDigit(cs[i]) \/ IsAlpha(cs[i])
FirstGroupEnd(cs) == CHOOSE i \in DOMAIN cs :
  /\ IsAlpha(cs[i]) /\ (i = Len(cs) \/ IsDigit(cs[i + 1]))
  /\ \A j \in 1..(i - 1) : ~(IsAlpha(cs[j]) /\ IsDigit(cs[j + 1]))
GroupValue(g) ==
  LET n == Cardinality({i \in DOMAIN g : IsDigit(g[i])})
      f == Factor(SubSeq(g, n + 1, Len(g)))
  IN  IF f = <<>> THEN REJECT ELSE Mul(FromDigits([i \in 1..n |-> g[i] - 48]), f)
RECURSIVE SumGroups(_)
SumGroups(cs) ==
  IF cs = <<>> THEN <<>>
  ELSE LET k == FirstGroupEnd(cs)
           v == GroupValue(SubSeq(cs, 1, k))
           w == SumGroups(SubSeq(cs, k + 1, Len(cs)))
       IN  IF v = REJECT \/ w = REJECT THEN REJECT ELSE Add(v, w)
IntervalDenotes(cs) ==
  LET v == SumGroups(cs) IN IF v = REJECT \/ ~U64(v) THEN REJECT ELSE v

\* ------------------------------------------------------------------ times
Number(cs, i, n) == LET RECURSIVE N(_) N(k) == IF k = 0 THEN 0 ELSE 10 * N(k - 1) + (cs[i + k - 1] - 48) IN N(n)
DigitsAt(cs, i, n) == i + n - 1 <= Len(cs) /\ \A k \in i..(i + n - 1) : IsDigit(cs[k])
DateText(cs) == DigitsAt(cs, 1, 4) /\ cs[5] = 45 /\ DigitsAt(cs, 6, 2) /\ cs[8] = 45 /\ DigitsAt(cs, 9, 2)
DateDenotes(cs) ==
  LET y == Number(cs, 1, 4) m == Number(cs, 6, 2) dd == Number(cs, 9, 2) IN
  IF ~ValidDate(y, m, dd) \/ y < 1970 THEN REJECT ELSE <<Date(y, m, dd), 0>>
\* YYYY-MM-DDThh:mm:ss[.f*](Z|+hh:mm|-hh:mm)
FracLen(cs) == IF Len(cs) >= 20 /\ cs[20] = 46
               THEN Cardinality({i \in 21..Len(cs) : \A j \in 21..i : IsDigit(cs[j])}) ELSE 0
ZoneAt(cs) == IF FracLen(cs) > 0 THEN 21 + FracLen(cs) ELSE 20
Zulu(cs) == ZoneAt(cs) = Len(cs) /\ cs[Len(cs)] \in {90, 122}
Zoned(cs) == LET z == ZoneAt(cs) IN
  Len(cs) = z + 5 /\ cs[z] \in {43, 45} /\ DigitsAt(cs, z + 1, 2) /\ cs[z + 3] = 58 /\ DigitsAt(cs, z + 4, 2)
TimeText(cs) ==
  /\ Len(cs) >= 20 /\ DateText(cs) /\ cs[11] \in {84, 116}
  /\ DigitsAt(cs, 12, 2) /\ cs[14] = 58 /\ DigitsAt(cs, 15, 2) /\ cs[17] = 58 /\ DigitsAt(cs, 18, 2)
  /\ Zulu(cs) \/ Zoned(cs)
FracMs(cs) == LET d(k) == IF k <= FracLen(cs) THEN cs[20 + k] - 48 ELSE 0 IN 100 * d(1) + 10 * d(2) + d(3)
ZoneMs(cs) == LET z == ZoneAt(cs) IN IF Zulu(cs) THEN 0 ELSE 3600000 * Number(cs, z + 1, 2) + 60000 * Number(cs, z + 4, 2)
TimeDenotes(cs) ==
  LET y == Number(cs, 1, 4) m == Number(cs, 6, 2) dd == Number(cs, 9, 2)
      hh == Number(cs, 12, 2) mm == Number(cs, 15, 2) ss == Number(cs, 18, 2)
      z == ZoneAt(cs)
  IN  IF \/ ~ValidDate(y, m, dd) \/ hh > 23 \/ mm > 59 \/ ss > 59 \/ y < 1969
         \/ (~Zulu(cs) /\ (Number(cs, z + 1, 2) > 23 \/ Number(cs, z + 4, 2) > 59))
      THEN REJECT
      ELSE LET t == <<Date(y, m, dd), 3600000 * hh + 60000 * mm + 1000 * ss + FracMs(cs)>>
               u == IF Zulu(cs) THEN t
                    ELSE IF cs[z] = 43 THEN Minus(t, ZoneMs(cs)) ELSE Plus(t, ZoneMs(cs))
           IN  IF u[1] < 0 THEN REJECT ELSE u
PointDenotes(cs) == IF TimeText(cs) THEN TimeDenotes(cs)
                    ELSE IF Len(cs) = 10 /\ DateText(cs) THEN DateDenotes(cs) ELSE REJECT
=============================================================================
