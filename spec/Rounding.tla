------------------------------ MODULE Rounding ------------------------------
(* Rounding to decimal places, averages and interpolation on exact fractions. *)
(* A value is a/d (big naturals, d > 0); n is a result in units of 10^-p.     *)
EXTENDS BigNat
RECURSIVE TenTo(_)
TenTo(p) == IF p = 0 THEN <<1>> ELSE Mul(<<10>>, TenTo(p - 1))
AtMost(a, b) == ~Less(b, a)
\* n units, n + 1 units against a/d: n * d <= a * 10^p < (n + 1) * d.
Down(a, d, p, n) == LET v == Mul(a, TenTo(p)) nd == Mul(n, d) IN AtMost(nd, v) /\ Less(v, Add(nd, d))
\* The nearest unit, the higher of two: 2 a 10^p + d in [2 n d, 2 n d + 2 d).
Nearest(a, d, p, n) == LET v == Add(Mul(<<2>>, Mul(a, TenTo(p))), d)  nd == Mul(<<2>>, Mul(n, d))
                       IN AtMost(nd, v) /\ Less(v, Add(nd, Mul(<<2>>, d)))
\* Exactly on a boundary a decimal that binary numbers only approach may fall to either side.
OnGrid(a, d, p, n) == Mul(Add(n, <<1>>), d) = Mul(a, TenTo(p))
OnMiddle(a, d, p, n) == Mul(Add(Mul(<<2>>, n), <<1>>), d) = Mul(<<2>>, Mul(a, TenTo(p)))
RoundDown(a, d, p, n, exact) == (Down(a, d, p, n) \/ (~exact /\ OnGrid(a, d, p, n))) = TRUE
RoundHalfUp(a, d, p, n, exact) == (Nearest(a, d, p, n) \/ (~exact /\ OnMiddle(a, d, p, n))) = TRUE
\* What is whole stays as it is, to fifteen digits, however large.
Kept(v, out) == LET k == <<0, 0, 0, 1000>>      \* 10^15
                    A(x) == Mul(k, x)
                IN AtMost(A(out), Add(A(v), v)) /\ AtMost(A(v), Add(A(out), v))

\* ------------------------------------------------- averages (small integers)
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s) + Total(Tail(s))
\* Mean and standard deviation of xs, both in units of 1/1000; of nothing there is none.
MeanIs(xs, m) == Abs((m * Len(xs)) - (1000 * Total(xs))) <= Len(xs)
Scatter(xs) == Total([i \in DOMAIN xs |-> ((Len(xs) * xs[i]) - Total(xs)) * ((Len(xs) * xs[i]) - Total(xs))])   \* n^3 variance
\* (s/1000)^2 n^3 = Scatter, with s off by one unit at most, scaled down to 32 bits.
DeviationIs(xs, s) ==
  LET n == Len(xs)
      lo == Max2(s - 1, 0)  hi == s + 1
      Sq(x) == Mul(Mul(FromInt(x), FromInt(x)), FromInt(n * n * n))
      v == Mul(FromInt(Scatter(xs)), <<0, 100>>)     \* 10^6
  IN  AtMost(Sq(lo), v) /\ AtMost(v, Sq(hi))
\* From b at 0 to a at 1, t in 256ths, results in 256ths.
Between(a, b, t) == (t * a) + ((256 - t) * b)
Pairs(s) == [i \in 1..(IF s = <<>> THEN 0 ELSE Len(s) - 1) |-> <<s[i], s[i + 1]>>]
LeastOf(s) == CHOOSE x \in {s[i] : i \in DOMAIN s} : \A i \in DOMAIN s : x <= s[i]
MostOf(s) == CHOOSE x \in {s[i] : i \in DOMAIN s} : \A i \in DOMAIN s : x >= s[i]
\* Adler-32 over code points: low and high half.
RECURSIVE Adler(_, _, _)
Adler(cs, a, b) == IF cs = <<>> THEN <<a, b>>
                   ELSE LET x == (a + Head(cs)) % 65521 IN Adler(Tail(cs), x, (b + x) % 65521)
\* A gain g (percent) over a whole number of years or a unit fraction of one, per year, in millionths.
RECURSIVE Growth(_, _)
Growth(g, k) == IF k = 0 THEN 1000000 ELSE LET h == Growth(g, k - 1) IN h + ((h \div 100) * g) + (((h % 100) * g) \div 100)
PerYear(g, k, out) == Abs((out + 1000000) - Growth(g, k)) <= 4 * k
\* Over k years: (1 + out)^k = 1 + g.
RECURSIVE Power(_, _)
Power(x, k) == IF k = 0 THEN 1000000 ELSE LET h == Power(x, k - 1) IN
   ((h \div 1000) * (x \div 1000)) + (((h % 1000) * (x \div 1000)) \div 1000) + (((h \div 1000) * (x % 1000)) \div 1000)
OverYears(g, k, out) == Abs(Power(1000000 + out, k) - (1000000 + 10000 * g)) <= 16 * k
\* A small gain, k times in a year, compounds to nearly e^(k times the gain): x thousandths in all, the result in 1/10000.
RECURSIVE Series(_, _, _)
Series(x, term, j) == IF j > 12 THEN 0 ELSE term + Series(x, (term * x) \div (1000 * j), j + 1)
Exponential(x) == Series(x, 1000000, 1) \div 100
Mounting(x, k, out) == Abs((out + 10000) - Exponential(x)) <= 5 + (10000 \div k)
=============================================================================
