------------------------------ MODULE Listing ------------------------------
(* Which generations of an optimisation are worth showing: those in which     *)
(* some rank of the hall of fame improved on the best seen at that rank.      *)
(* Fitness is given by its rank among all fitnesses; None is "no number".     *)
EXTENDS Integers, Sequences
None == -1
Better(x, b) == b = None \/ x > b
Improved(best, fame) == {k \in 1..Len(fame) : Better(fame[k], best[k])}
Raised(best, fame) == [k \in DOMAIN best |-> IF k \in Improved(best, fame) THEN fame[k] ELSE best[k]]
RECURSIVE ListFrom(_, _, _)
\* Numbers, counted from 0, of the generations listed from the i-th on.
ListFrom(gens, i, best) ==
  IF i > Len(gens) THEN <<>>
  ELSE (IF Improved(best, gens[i]) # {} THEN <<i - 1>> ELSE <<>>) \o ListFrom(gens, i + 1, Raised(best, gens[i]))
Longest(gens) == LET S == {Len(gens[i]) : i \in DOMAIN gens} IN IF S = {} THEN 0 ELSE CHOOSE n \in S : \A m \in S : m <= n
\* As the server folds it (ListingMC shows this is Listed).
Folded(gens) == ListFrom(gens, 1, [k \in 1..Longest(gens) |-> None])
At(gens, j, k) == IF k <= Len(gens[j]) THEN gens[j][k] ELSE None
Shown(gens, i) == \E k \in DOMAIN gens[i] :
  \/ \A j \in 1..(i - 1) : At(gens, j, k) = None
  \/ \A j \in 1..(i - 1) : At(gens, j, k) < gens[i][k]
Listed(gens) == SelectSeq([i \in 1..Len(gens) |-> i - 1], LAMBDA n : Shown(gens, n + 1))
=============================================================================
