------------------------------ MODULE Fitness ------------------------------
(* The fitness of a parameter set: what the aggregations make of the values   *)
(* of the chosen statistic over the training symbols.                         *)
(* Values are scaled by 100000.                                               *)
EXTENDS Logs, Arith
S == 100000
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
RECURSIVE Largest(_)
Largest(s) == IF Len(s) = 1 THEN s[1] ELSE Max2(s[1], Largest(Tail(s)))
Linear(vals) == Sum(vals)
\* Gains count by their logarithm, losses exponentially: 10^(loss + 1).
Gains(vals) == Sum([i \in DOMAIN vals |-> IF vals[i] >= 0 THEN Log10S(vals[i] + S) - Log10S(S) ELSE 0])
Losses(vals) == SelectSeq(vals, LAMBDA v : v < 0)
Penalties(vals) == Sum([i \in DOMAIN Losses(vals) |-> Pow10S(S - Losses(vals)[i])])   \* scaled by 10000
WorstLoss(vals) == Largest([i \in DOMAIN Losses(vals) |-> 0 - Losses(vals)[i]])
Factored(vals) == [i \in DOMAIN vals |-> 10 * vals[i]]
Close(a, b, tol) == Abs(a - b) <= tol
=============================================================================
