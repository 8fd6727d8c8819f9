------------------------------ MODULE Calendar ------------------------------
(* Points in time as <<day, ms>>: days since 1970-01-01 (UTC) and the         *)
(* millisecond of that day, so that everything up to the year 9999 fits into  *)
(* TLC's integers.  Intervals are [k, ms]: k = "w" (week), "M" (month) or     *)
(* "n" (any number of milliseconds below a week).                             *)
EXTENDS Arith, Sequences, FiniteSets

DAY == 86400000
WEEK == 7 * DAY

Before(s, t) == s[1] < t[1] \/ (s[1] = t[1] /\ s[2] < t[2])
AtMost(s, t) == s = t \/ Before(s, t)
\* t + m for a number of milliseconds 0 <= m < 2^30; Minus likewise.
Plus(t, m) == LET s == t[2] + (m % DAY) IN <<t[1] + m \div DAY + s \div DAY, s % DAY>>
Minus(t, m) == LET s == t[2] - (m % DAY) IN <<t[1] - m \div DAY + (IF s < 0 THEN -1 ELSE 0), s % DAY>>

\* ------------------------------------------------------------ civil dates
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
\* Days between 1970-01-01 and y-01-01.
YearStart(y) == LET n == y - 1 IN
  365 * (y - 1970) + (n \div 4 - n \div 100 + n \div 400) - 477
MonthDays(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
RECURSIVE MonthStart(_, _)
MonthStart(y, m) == IF m = 1 THEN YearStart(y) ELSE MonthStart(y, m - 1) + MonthDays(y, m - 1)
Year(d) == LET g == 1970 + d \div 366
           IN  CHOOSE y \in g..(g + 24) : YearStart(y) <= d /\ d < YearStart(y + 1)
Month(d) == LET y == Year(d) IN
  CHOOSE m \in 1..12 : MonthStart(y, m) <= d /\ d < MonthStart(y, m) + MonthDays(y, m)
DayOfMonth(d) == d - MonthStart(Year(d), Month(d)) + 1
Date(y, m, dd) == MonthStart(y, m) + dd - 1
ValidDate(y, m, dd) == m \in 1..12 /\ dd \in 1..MonthDays(y, m)
\* 1970-01-01 was a Thursday; 0 is Monday.
Weekday(d) == (d + 3) % 7

\* --------------------------------------------------------------- rounding
\* (d * DAY) % i without leaving 32 bits.
RECURSIVE DayMod(_, _)
DayMod(d, i) == IF d = 0 THEN 0
                ELSE LET h == DayMod(d \div 2, i) IN (((2 * h) % i) + (d % 2) * (DAY % i)) % i
Offset(t, i) == (DayMod(t[1], i) + (t[2] % i)) % i

IsBoundary(t, iv) ==
  CASE iv.k = "n" -> Offset(t, iv.ms) = 0
    [] iv.k = "w" -> t[2] = 0 /\ Weekday(t[1]) = 0
    [] iv.k = "M" -> t[2] = 0 /\ DayOfMonth(t[1]) = 1
Floor(t, iv) ==
  CASE iv.k = "n" -> Minus(t, Offset(t, iv.ms))
    [] iv.k = "w" -> <<t[1] - Weekday(t[1]), 0>>
    [] iv.k = "M" -> <<MonthStart(Year(t[1]), Month(t[1])), 0>>
NextBoundary(b, iv) ==   \* the boundary that follows boundary b
  CASE iv.k = "n" -> Plus(b, iv.ms)
    [] iv.k = "w" -> <<b[1] + 7, 0>>
    [] iv.k = "M" -> <<b[1] + MonthDays(Year(b[1]), Month(b[1])), 0>>
Ceil(t, iv) == IF IsBoundary(t, iv) THEN t ELSE NextBoundary(Floor(t, iv), iv)
=============================================================================
