---------------------------- MODULE DurationsMC ----------------------------
(* A clock advancing by one of several strides from one of several starts:    *)
(* the relations have exactly one answer, and the answers fit together.       *)
EXTENDS Durations, FiniteSets
CONSTANTS STARTS, STRIDES, STEPS, OFFSETS
VARIABLES t0, t, i, n     \* start, now, stride, strides taken (plain integers)
vars == <<t0, t, i, n>>
Init == t0 \in STARTS /\ t = t0 /\ i \in STRIDES /\ n = 0
Next == n < STEPS /\ n' = n + 1 /\ t' = t + i /\ UNCHANGED <<t0, i>>
Spec == Init /\ [][Next]_vars
B(x) == FromInt(x)
Added == Sum(B(t0), Mul(B(n), B(i)), B(t))
Taken == Difference(B(t), B(t0), Mul(B(n), B(i)))
Commute == Mul(B(n), B(i)) = Mul(B(i), B(n)) /\ Add(B(t), B(i)) = Add(B(i), B(t))
\* The relations decide the right answer, and only that.
RemRight == \A m \in STRIDES : LET k == t \div m IN
  /\ Remainder(B(t), B(m), B(k), B(t % m))
  /\ k > 0 => ~Remainder(B(t), B(m), B(k - 1), B((t % m) + m))
FloorRight == \A m \in STRIDES : {k \in ((t \div m) - 1)..((t \div m) + 2) : k >= 0 /\ FloorOf(B(t), B(m), B(k), B(k * m))} = {t \div m}
CeilRight == \A m \in STRIDES : {k \in (t \div m)..((t \div m) + 2) : CeilOf(B(t), B(m), B(k), B(k * m))} = {CeilDiv(t, m)}
Grid(m, o) == {x \in (t - m)..(t + m) : x >= 0 /\ (x - o) % m = 0}
FromRight == \A m \in STRIDES, o \in OFFSETS : m < 2000 =>
  /\ {x \in Grid(m, o) : FloorFrom(B(t), B(m), B(o), B(Abs(x - o) \div m), IF x >= o THEN 1 ELSE 0, B(x))} = {x \in Grid(m, o) : x <= t /\ t - x < m}
  /\ {x \in Grid(m, o) : CeilFrom(B(t), B(m), B(o), B(Abs(x - o) \div m), IF x >= o THEN 1 ELSE 0, B(x))} = {x \in Grid(m, o) : x >= t /\ x - t < m}
Ordered == n > 0 => Order(B(t0), B(t)) = -1 /\ Order(B(t), B(t0)) = 1 /\ Order(B(t), B(t)) = 0
Units == Mul(Unit.DAY, <<7>>) = Unit.WEEK /\ Mul(Unit.MONTH, <<12>>) = Unit.YEAR /\ Mul(Unit.HOUR, <<24>>) = Unit.DAY
         /\ Mul(Unit.MIN, <<60>>) = Unit.HOUR /\ Mul(Unit.SEC, <<60>>) = Unit.MIN
=============================================================================
