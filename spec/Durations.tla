----------------------------- MODULE Durations -----------------------------
(* Times and intervals as natural numbers of milliseconds (64 bit), and what *)
(* adding, subtracting, scaling, comparing and rounding to multiples mean.   *)
EXTENDS BigNat
Sum(a, b, out) == out = Add(a, b)
Difference(a, b, out) == Add(out, b) = a
Product(a, b, out) == out = Mul(a, b)
\* out is the remainder of a by m, a being k whole ms and the rest.
Remainder(a, m, k, out) == Less(out, m) /\ Add(Mul(k, m), out) = a
\* The largest / smallest multiple (the k-th) of m not beyond / not before a.
FloorOf(a, m, k, out) == out = Mul(k, m) /\ ~Less(a, out) /\ Less(a, Add(out, m))
CeilOf(a, m, k, out) == out = Mul(k, m) /\ ~Less(out, a) /\ Less(out, Add(a, m))
\* Multiples counted from an offset o: out = o + k m, or o - k m before it (s = 0).
Stop(m, o, k, s, out) == IF s = 1 THEN out = Add(o, Mul(k, m)) ELSE Add(out, Mul(k, m)) = o
FloorFrom(a, m, o, k, s, out) == Stop(m, o, k, s, out) /\ ~Less(a, out) /\ Less(a, Add(out, m))
CeilFrom(a, m, o, k, s, out) == Stop(m, o, k, s, out) /\ ~Less(out, a) /\ Less(out, Add(a, m))
Order(a, b) == IF a = b THEN 0 ELSE IF Less(a, b) THEN -1 ELSE 1
\* Names of the units.
Unit == [SEC |-> FromInt(1000), MIN |-> FromInt(60000), HOUR |-> FromInt(3600000), DAY |-> FromInt(86400000),
         WEEK |-> FromInt(604800000), MONTH |-> Mul(FromInt(2629746), FromInt(1000)),
         YEAR |-> Mul(FromInt(31556952), FromInt(1000))]
=============================================================================
