----------------------------- MODULE RoundingMC -----------------------------
(* A value creeping up by one part in DEN: what it is rounded to is unique    *)
(* and stays within a unit of it; the averages obey their laws.                *)
EXTENDS Rounding, FiniteSets
CONSTANTS DENS, TOP, XS
VARIABLES d, a, p, xs
vars == <<d, a, p, xs>>
Init == d \in DENS /\ a = 0 /\ p \in 0..2 /\ xs = <<>>
Next == /\ IF d = 1 THEN a < 3 ELSE a < TOP * d
        /\ a' = a + 1
        /\ IF d = 1 /\ Len(xs) < 3 THEN \E x \in XS : xs' = Append(xs, x) ELSE xs' = xs
        /\ UNCHANGED <<d, p>>
Spec == Init /\ [][Next]_vars
B(x) == FromInt(x)
T == 10^p
Units == {n \in (((a * T) \div d) - 2)..(((a * T) \div d) + 3) : n >= 0}
Downs == {n \in Units : RoundDown(B(a), B(d), p, B(n), TRUE)}
Halves == {n \in Units : RoundHalfUp(B(a), B(d), p, B(n), TRUE)}
DownRight == Downs = {(a * T) \div d}
HalfRight == Halves = {(2 * a * T + d) \div (2 * d)}
\* The tolerant answers are the exact one, or next to it on a boundary.
Loose == /\ {n \in Units : RoundDown(B(a), B(d), p, B(n), FALSE)} = FloorSet(a * T, d, FALSE)
         /\ {n \in Units : RoundHalfUp(B(a), B(d), p, B(n), FALSE)} = {n \in RoundSet(a * T, d, FALSE) : n >= 0}
n0 == CHOOSE n \in Downs : TRUE
Near == Halves \subseteq {n0, n0 + 1}
\* Averages.
MeanBetween == xs # <<>> => \E m \in (1000 * LeastOf(xs))..(1000 * MostOf(xs)) : MeanIs(xs, m)
Flat == (xs # <<>> /\ LeastOf(xs) = MostOf(xs)) => DeviationIs(xs, 0) /\ ~DeviationIs(xs, 2)
Spread == (xs # <<>> /\ LeastOf(xs) < MostOf(xs)) => ~DeviationIs(xs, 0)
Ends == \A x \in XS, y \in XS : Between(x, y, 256) = 256 * x /\ Between(x, y, 0) = 256 * y
PairsRight == Len(xs) > 0 => Len(Pairs(xs)) = Len(xs) - 1
Years == PerYear(21, 2, 464100) /\ OverYears(21, 2, 100000) /\ PerYear(21, 1, 210000) /\ OverYears(-19, 2, -100000) /\ ~OverYears(21, 2, 100100)
Mounts == Mounting(700, 1000000, 10137) /\ ~Mounting(700, 1000000, 10160) /\ Mounting(-700, 1000000, -5034)
Keeping == Kept(<<0, 0, 900>>, <<0, 0, 900>>) /\ ~Kept(<<0, 0, 900>>, <<1, 0, 900>>) /\ Kept(<<0, 0, 0, 0, 90>>, <<1, 0, 0, 0, 90>>) /\ ~Kept(<<0, 0, 0, 0, 90>>, <<1, 1000, 0, 0, 90>>)
Sums == Adler(<<115, 109, 97>>, 1, 0) = <<322, 663>>
=============================================================================
