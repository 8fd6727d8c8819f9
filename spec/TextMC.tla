------------------------------- MODULE TextMC -------------------------------
(* The canonical printers (largest unit first; RFC 3339) and the denotations  *)
(* are inverse to each other, and big numbers behave like numbers.            *)
EXTENDS Text, TLC
CONSTANTS NUMS, DAYS, MSS
VARIABLES a, b, d, ms
Init == a \in NUMS /\ b \in NUMS /\ d \in DAYS /\ ms \in MSS
Next == UNCHANGED <<a, b, d, ms>>
Spec == Init /\ [][Next]_<<a, b, d, ms>>

RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
RECURSIVE Pad(_, _)
Pad(n, k) == IF k = 0 THEN <<>> ELSE Append(Pad(n \div 10, k - 1), 48 + (n % 10))
Units == <<[u |-> <<119>>, f |-> WEEK], [u |-> <<100>>, f |-> DAY], [u |-> <<104>>, f |-> 3600000],
           [u |-> <<109>>, f |-> 60000], [u |-> <<115>>, f |-> 1000], [u |-> <<109, 115>>, f |-> 1]>>
RECURSIVE ShowFrom(_, _)
ShowFrom(n, i) == IF n = 0 THEN <<>>
  ELSE (IF n \div Units[i].f > 0 THEN Digits(n \div Units[i].f) \o Units[i].u ELSE <<>>) \o ShowFrom(n % Units[i].f, i + 1)
Show(n) == IF n = 0 THEN <<48, 109, 115>> ELSE ShowFrom(n, 1)
ShowTime(t) == LET y == Year(t[1]) m == t[2] IN
  Pad(y, 4) \o <<45>> \o Pad(Month(t[1]), 2) \o <<45>> \o Pad(DayOfMonth(t[1]), 2) \o <<84>>
  \o Pad(m \div 3600000, 2) \o <<58>> \o Pad((m \div 60000) % 60, 2) \o <<58>> \o Pad((m \div 1000) % 60, 2)
  \o (IF m % 1000 = 0 THEN <<>> ELSE <<46>> \o Pad(m % 1000, 3)) \o <<90>>

IntervalRoundTrip == Groups(Show(a)) /\ IntervalDenotes(Show(a)) = FromInt(a)
\* Concatenation of texts adds.
SumOfGroups == IntervalDenotes(Show(a) \o Show(b)) = Add(FromInt(a), FromInt(b))
TimeRoundTrip == PointDenotes(ShowTime(<<d, ms>>)) = <<d, ms>>
AddRight == (a < 1000000000 /\ b < 1000000000) => Add(FromInt(a), FromInt(b)) = FromInt(a + b)
MulRight == (a < 40000 /\ b < 40000) => Mul(FromInt(a), FromInt(b)) = FromInt(a * b)
MulCommutes == Mul(FromInt(a), FromInt(b)) = Mul(FromInt(b), FromInt(a))
OrderRight == Less(FromInt(a), FromInt(b)) <=> a < b
ReadBack == FromDigits([i \in DOMAIN Digits(a) |-> Digits(a)[i] - 48]) = FromInt(a)
=============================================================================
