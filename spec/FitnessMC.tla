----------------------------- MODULE FitnessMC -----------------------------
(* What the aggregations promise, for all small combinations of values; and   *)
(* the fixed-point logarithms they are specified with.                        *)
EXTENDS Fitness
CONSTANTS GAINS, LOSSES, NUMS
VALS == GAINS \cup {0 - x : x \in LOSSES}
VARIABLES vals, n, m
vars == <<vals, n, m>>
Kinds == {"linear", "log10", "factored"}
Agg(k, v) == IF k = "linear" THEN Linear(v)
             ELSE LET w == IF k = "log10" THEN v ELSE Factored(v) IN Gains(w) - 10 * Penalties(w)
Init == \/ n = 1 /\ m = 1 /\ vals \in ({<<a>> : a \in VALS} \cup {<<a, b>> : a, b \in VALS} \cup {<<a, b, c>> : a, b, c \in VALS})
        \/ vals = <<0>> /\ n \in NUMS /\ m \in NUMS
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Rev(v) == [i \in DOMAIN v |-> v[Len(v) + 1 - i]]
OrderFree == \A k \in Kinds : Agg(k, vals) = Agg(k, Rev(vals))
Monotone == \A k \in Kinds, i \in DOMAIN vals, x \in VALS :
  x > vals[i] => Agg(k, [vals EXCEPT ![i] = x]) > Agg(k, vals)
\* Under the logarithmic aggregations no gain makes up for a loss of the same size.
LossesWeigh == Len(vals) = 2 /\ vals[1] < 0 /\ vals[2] <= 100 * S =>
  Agg("log10", vals) < 0 /\ Agg("factored", vals) < 0
NothingIsZero == (\A i \in DOMAIN vals : vals[i] = 0) => \A k \in Kinds : Agg(k, vals) = 0
LogLaw == n <= 2000000000 \div m => Close(LnS(n * m), LnS(n) + LnS(m), 15)
TenLaw == n > 1000 /\ n < 200000000 => Close(LnS(10 * n) - LnS(n), 230259, 10) /\ Close(Log10S(10 * n) - Log10S(n), S, 6)
LogRises == n > 1 => LnS(n) >= LnS(n - 1)
Inverse == n < 100000 => LET x == Pow10S(Log10S(n)) IN Close(x \div n, 10000, 5)
=============================================================================
