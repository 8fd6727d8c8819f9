------------------------------- MODULE Stats -------------------------------
(* Statistics of a backtest: a fold over its positions, and the daily         *)
(* mark-to-market performance of the portfolio.  Money, sizes and prices are  *)
(* integers, times are hours.                                                 *)
(* A position is [s, ot, oq, os, of, ct, cq, cs, cf, col, bor, why].          *)
EXTENDS Arith, Logs, TLC
Cost(p) == IF p.s = "L" THEN p.oq ELSE p.col
Gain(p) == IF p.s = "L" THEN p.cq - p.cf ELSE p.oq - p.of + p.col - p.cq
Profit(p) == Gain(p) - Cost(p)
BaseGain(p) == IF p.s = "L" THEN p.os - p.of ELSE p.bor
BaseCost(p) == IF p.s = "L" THEN p.cs ELSE p.bor
Duration(p) == p.ct - p.ot
----------------------------------------------------------------------------
(* The running account. *)
Fold0(q) == [cost |-> q, bal |-> q, top |-> q, n |-> 0, won |-> 0, lost |-> 0, stops |-> 0, takes |-> 0,
             time |-> 0, ddq |-> q, ddt |-> q, dds |-> 0]
DS == 100000
Drawdown(q, t) == ((t - q) * DS) \div t
\* Relative fall ddq..ddt: the largest so far; dds sums them (each rounded down).
Account(f, p) ==
  LET b == f.bal + Profit(p)
      t == Max2(f.top, b)
      worse == (t - b) * f.ddt > (f.ddt - f.ddq) * t
  IN [f EXCEPT !.bal = b, !.top = t, !.n = @ + 1,
        !.won = IF Profit(p) >= 0 THEN @ + 1 ELSE @, !.lost = IF Profit(p) < 0 THEN @ + 1 ELSE @,
        !.stops = IF p.why = "stop" THEN @ + 1 ELSE @, !.takes = IF p.why = "take" THEN @ + 1 ELSE @,
        !.time = @ + Duration(p), !.dds = @ + Drawdown(b, t),
        !.ddq = IF worse THEN b ELSE @, !.ddt = IF worse THEN t ELSE @]
Total(f) == f.bal - f.cost
Near(x, num, den, scale, tol) == Abs(x - ((num * scale) \div den)) <= tol
----------------------------------------------------------------------------
(* Growth per year: (1 + num/den)^(year / hours) - 1, scaled by 10000, as far *)
(* as it can be judged in 32 bits.                                            *)
Year == 8766    \* hours, within 1/40000 of the 8765.82 of a Gregorian year
Annualized(x, num, den, hours) ==
  IF hours = 0 THEN x = 0
  ELSE IF num + den < 0 THEN x = 0
  ELSE IF num + den = 0 THEN x = -10000
  ELSE LET l == LnS(num + den) - LnS(den) IN
    IF Abs(l) > 230000 THEN TRUE
    ELSE LET g == (l * Year) \div hours IN
      IF g > 900000 \/ g < -500000 THEN TRUE
      ELSE x + 10000 > 0 /\ Abs(LnS(x + 10000) - LnS(10000) - g) <= 30 + ((15 * Year) \div hours) + (Abs(g) \div 20000) + (110000 \div (x + 10000))
----------------------------------------------------------------------------
(* Daily performance.  `start` and `end` in hours; prices have one leading    *)
(* entry for the opening.                                                     *)
Day(h) == h \div 24
\* What the first i positions bring in on each day (one entry per day from the start to the end).
RECURSIVE Inflows(_, _, _, _)
Inflows(none, ps, day1, i) == IF i = 0 THEN [q |-> none, b |-> none]
  ELSE LET f == Inflows(none, ps, day1, i - 1)
           p == ps[i]
           o == Day(p.ot) - day1 + 1
           c == Day(p.ct) - day1 + 1
       IN  [q |-> [[f.q EXCEPT ![o] = @ - Cost(p)] EXCEPT ![c] = @ + Gain(p)],
            b |-> [[f.b EXCEPT ![o] = @ + BaseGain(p)] EXCEPT ![c] = @ - BaseCost(p)]]
\* Running totals.
RECURSIVE Totals(_, _, _)
Totals(s, from, n) == IF n = 0 THEN <<>>
  ELSE LET t == Totals(s, from, n - 1) IN Append(t, s[n] + IF n = 1 THEN from ELSE t[n - 1])
Days(c) == Day(c.end) - Day(c.start)
Performance(c, ps) ==
  LET none == TLCEval([i \in 1..(Days(c) + 1) |-> 0])
      flow == Inflows(none, ps, Day(c.start), Len(ps))
      quote == Totals(flow.q, c.q0, Days(c))
      base == Totals(flow.b, 0, Days(c))
  IN  <<c.q0 * c.qp[1]>> \o [i \in 1..Days(c) |-> quote[i] * c.qp[i + 1] + base[i] * c.bp[i + 1]]
Ruined(perf) == \E i \in DOMAIN perf : perf[i] <= 0
\* Logarithmic daily returns scaled by 100000 (each within 3 units).
GS == 100000
Returns(perf) == TLCEval([i \in 1..(Len(perf) - 1) |-> IF perf[i + 1] = perf[i] THEN 0 ELSE (LnM(perf[i + 1]) - LnM(perf[i])) \div 10])
RECURSIVE SumUpTo(_, _)
SumUpTo(s, i) == IF i = 0 THEN 0 ELSE SumUpTo(s, i - 1) + s[i]
SumSeq(s) == SumUpTo(s, Len(s))
Mean(s) == SumSeq(s) \div Len(s)
RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF lo >= hi THEN lo ELSE
  LET m == (lo + hi + 1) \div 2 IN IF m <= n \div m THEN Root(n, m, hi) ELSE Root(n, lo, m - 1)
Sqrt(n) == Root(n, 0, 46340)
\* Standard deviation; large values are scaled down so that their squares stay within 32 bits.
RECURSIVE FurthestTo(_, _, _)
FurthestTo(s, m, i) == IF i = 0 THEN 0 ELSE Max2(FurthestTo(s, m, i - 1), Abs(s[i] - m))
Furthest(s, m) == FurthestTo(s, m, Len(s))
Coarse(s) == 1 + Furthest(s, Mean(s)) \div Sqrt(2000000000 \div Len(s))
Deviation(s) ==
  LET m == Mean(s)
      k == Coarse(s)
      d == [i \in DOMAIN s |-> (s[i] - m) \div k]
  IN  k * Sqrt(SumSeq([i \in DOMAIN s |-> d[i] * d[i]]) \div Len(s))
Lost(perf) == {i \in 1..(Len(perf) - 1) : perf[i + 1] < perf[i]}
LosingReturns(perf) == LET g == Returns(perf) IN
  SelectSeq([i \in DOMAIN g |-> IF i \in Lost(perf) THEN <<g[i]>> ELSE <<>>], LAMBDA x : x # <<>>)
Losing(perf) == LET l == LosingReturns(perf) IN [i \in DOMAIN l |-> l[i][1]]
\* Annualised return over risk, scaled by 100: sqrt(365) mean / deviation.
Steady == 300    \* deviations below are too small to judge a quotient by
RatioOK(x, mean, dev, k) ==
  LET r == (1910 * mean) \div dev IN Abs(x - r) <= 2 + ((3 * 1910) \div dev) + (((3 + k) * Abs(r)) \div dev)
SharpeOK(x, perf) ==
  IF Len(perf) < 2 \/ Ruined(perf) THEN x = 0
  ELSE LET g == Returns(perf) IN
    IF \A i \in DOMAIN g : perf[i + 1] = perf[i] THEN x = 0
    ELSE IF Len(g) = 1 THEN x = 0
    ELSE Deviation(g) < Steady \/ RatioOK(x, Mean(g), Deviation(g), Coarse(g))
SortinoOK(x, perf) ==
  IF Len(perf) < 2 \/ Ruined(perf) THEN x = 0
  ELSE LET g == Returns(perf) n == Losing(perf) IN
    IF Len(n) < 2 THEN x = 0
    ELSE Deviation(n) < Steady \/ RatioOK(x, Mean(g), Deviation(n), Coarse(n))
AnnualReturnOK(x, perf) ==
  Len(perf) < 2 \/ Ruined(perf) \/ Abs(x - ((365 * SumSeq(Returns(perf))) \div (1000 * (Len(perf) - 1)))) <= 3
=============================================================================
