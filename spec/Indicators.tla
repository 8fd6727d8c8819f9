----------------------------- MODULE Indicators -----------------------------
(* Textbook recurrences of all indicators, in interval arithmetic: a real     *)
(* number is <<lo, hi>>, integers at a scale, rounded outwards, so that the   *)
(* true value is always inside.  Prices are integers (in quarters of a unit). *)
(* A period p below is always the first parameter of the indicator.           *)
EXTENDS Arith, Sequences, Maturity

\* -------------------------------------------------------------- intervals
FDiv(a, b) == a \div b
CDiv(a, b) == -((-a) \div b)
Pt(x) == <<x, x>>
Zero == Pt(0)
Plus2(u, v) == <<u[1] + v[1], u[2] + v[2]>>
Sub2(u, v) == <<u[1] - v[2], u[2] - v[1]>>
Times(u, k) == <<u[1] * k, u[2] * k>>                     \* k >= 0
Over(u, n) == <<FDiv(u[1], n), CDiv(u[2], n)>>             \* n > 0
\* (n * x + (d - n) * v) / d
Blend(v, x, n, d) == Over(Plus2(Times(x, n), Times(v, d - n)), d)
Dist(u, v) == <<Max2(0, Max2(u[1] - v[2], v[1] - u[2])), Max2(u[2] - v[1], v[2] - u[1])>>
\* Decimal expansion of n/d <= 1 to k digits, rounded down.
RECURSIVE Digits(_, _, _, _)
Digits(n, d, k, q) == IF k = 0 THEN q ELSE Digits((n * 10) % d, d, k - 1, q * 10 + (n * 10) \div d)
Down(n, d, k) == Digits(n, d, k, 0)
RECURSIVE Ten(_)
Ten(k) == IF k = 0 THEN 1 ELSE 10 * Ten(k - 1)
Up(n, d, k) == IF n >= d THEN Ten(k) ELSE Down(n, d, k) + 1
\* a / b within [0, 1] at 10^-k, for intervals a <= b.
Share(a, b, k) ==
  <<IF b[2] = 0 THEN 0 ELSE IF a[1] >= b[2] THEN Ten(k) ELSE Down(a[1], b[2], k),
    IF a[2] = 0 THEN 0 ELSE IF a[2] >= b[1] THEN Ten(k) ELSE Up(a[2], b[1], k)>>
\* a * f / 10^6 for |a| <= 2 * 10^6 and f <= 10^6 (rounded down by less than 2).
MulDown(a, f) == IF a >= 0 THEN (a * (f \div 1000)) \div 1000 + (a * (f % 1000)) \div 1000000
                 ELSE -((((-a) * (f \div 1000)) \div 1000 + ((-a) * (f % 1000)) \div 1000000) + 2)
MulUp(a, f) == IF a >= 0 THEN MulDown(a, f) + 2 ELSE MulDown(a, f) + 2 + 2

\* ------------------------------------------------------- building blocks
\* Windows keep the last n elements.
Push(w, x, n) == LET y == Append(w, x) IN IF Len(y) > n THEN Tail(y) ELSE y
RECURSIVE SumTo(_, _)
SumTo(w, i) == IF i = 0 THEN Zero ELSE Plus2(SumTo(w, i - 1), w[i])
Sum(w) == SumTo(w, Len(w))
Average(w) == Over(Sum(w), Len(w))
RECURSIVE SumITo(_, _)
SumITo(w, i) == IF i = 0 THEN 0 ELSE w[i] + SumITo(w, i - 1)
SumI(w) == SumITo(w, Len(w))
RECURSIVE MaxTo(_, _)
MaxTo(w, i) == IF i = 1 THEN w[1] ELSE Max2(MaxTo(w, i - 1), w[i])
RECURSIVE MinTo(_, _)
MinTo(w, i) == IF i = 1 THEN w[1] ELSE Min2(MinTo(w, i - 1), w[i])
MaxS(w) == MaxTo(w, Len(w))
MinS(w) == MinTo(w, Len(w))

\* Exponential: [t, v]; seeded with the first value.
E0 == [t |-> 0, v |-> Zero]
ENext(s, x, n, d) == [t |-> s.t + 1, v |-> IF s.t = 0 THEN x ELSE Blend(s.v, x, n, d)]
\* Seeded with the average of the first p values, then blended n/d.
A0 == [t |-> 0, s |-> Zero, v |-> Zero]
ANext(st, x, p, n, d) ==
  LET t == st.t + 1 s == IF t <= p THEN Plus2(st.s, x) ELSE st.s
  IN  [t |-> t, s |-> s, v |-> IF t < p THEN Zero ELSE IF t = p THEN Over(s, p) ELSE Blend(st.v, x, n, d)]
\* Wilder's smoothed mean.
WNext(st, x, p) == ANext(st, x, p, 1, p)
\* Wilder's running sum over the changes, of which the first p - 1 just add up.
S0 == [t |-> 1, v |-> Zero]
SNext(st, x, p) == LET t == st.t + 1 IN
  [t |-> t, v |-> IF t <= p THEN Plus2(st.v, x) ELSE Plus2(Over(Times(st.v, p - 1), p), x)]

\* ---------------------------------------------------------- exponentials
\* exp(-n/d) at 10^-6 within EXPERR.
EXPERR == 12
EXPTAB == <<1000000, 367879, 135335, 49787, 18316, 6738, 2479, 912, 335, 123, 45, 17, 6, 2, 1>>
RECURSIVE Taylor(_, _, _)
Taylor(f, k, term) == IF k = 10 \/ term = 0 THEN term
                      ELSE term - Taylor(f, k + 1, MulDown(term, f) \div (k + 1))
ExpNeg(n, d) == LET k == n \div d IN
  IF k > 14 THEN 0 ELSE MulDown(EXPTAB[k + 1], Taylor(Down(n % d, d, 6), 0, 1000000))

\* -------------------------------------------------------------- averages
\* SCALE: value of one quarter at the scale of the indicator.
RECURSIVE SumW(_, _, _)
SumW(w, q, i) == IF i = 0 THEN 0 ELSE w[i] * q[i] + SumW(w, q, i - 1)
AlmaWeights(c) ==
  LET p == c.p[1]
      sg == IF c.sigma > 0 THEN c.sigma ELSE (2 * p) \div 3
      m == (c.off[1] * (p - 1)) \div c.off[2]
  IN  [i \in 1..p |-> LET x == Abs(i - 1 - m) * sg IN IF x >= 6 * p THEN 0 ELSE ExpNeg(x * x, 2 * p * p)]
\* Weighted mean of the window within the error of the weights.
AlmaValue(w, c) ==
  LET q == AlmaWeights(c)
      lo == MinS(w)  hi == MaxS(w)
      tot == SumI(q)
      num == SumW([i \in DOMAIN w |-> w[i] - lo], q, Len(w))
      err == SumI([i \in DOMAIN q |-> IF q[i] = 0 THEN 1 ELSE EXPERR]) * (hi - lo)
      part(n) == lo * c.unit + (n \div tot) * c.unit + (Down(n % tot, tot, 4) * c.unit) \div 10000
  IN  <<part(Max2(0, num - err)) - 4, part(num + err) + 4>>

\* Kaufman: efficiency ratio of the last p changes.
KamaRate(w) ==   \* window of p + 1 prices; squared rate at 10^-6
  LET n == Abs(w[Len(w)] - w[1])
      d == SumI([i \in 1..(Len(w) - 1) |-> Abs(w[i + 1] - w[i])])
      er == IF d = 0 THEN Pt(1000000) ELSE <<Down(n, d, 6), Min2(1000000, Up(n, d, 6))>>
      root == <<FDiv(56 * er[1] + 6000000, 93), CDiv(56 * er[2] + 6000000, 93)>>
  IN  <<MulDown(root[1], root[1]), MulUp(root[2], root[2])>>
KamaNext(v, x, rate) ==
  <<v[1] + MulDown(x - v[1], IF x >= v[1] THEN rate[1] ELSE rate[2]),
    v[2] + MulUp(x - v[2], IF x >= v[2] THEN rate[2] ELSE rate[1])>>

\* ------------------------------------------------ one state, one step each
\* cfg c: [k, p, n, d (smoothing n/d), off, sigma, unit (a quarter, scaled)].
Start == [t |-> 0, w |-> <<>>, w2 |-> <<>>, w3 |-> <<>>, a |-> A0, b |-> A0, e |-> E0, f |-> E0, g |-> E0,
          s |-> S0, u |-> S0, r |-> S0, vals |-> <<>>]
Base(st) == [st EXCEPT !.t = @ + 1]
X(c, q) == Pt(q * c.unit)
P(c) == c.p[1]

SmaStep(st, c, x) == LET w == Push(st.w, X(c, x), P(c)) IN
  [Base(st) EXCEPT !.w = w, !.vals = <<Average(w)>>]
EmaStep(st, c, x) == LET e == ENext(st.e, X(c, x), c.n, c.d) IN [Base(st) EXCEPT !.e = e, !.vals = <<e.v>>]
Ema2Step(st, c, x) == LET a == ANext(st.a, X(c, x), P(c), 2, P(c) + 1) IN [Base(st) EXCEPT !.a = a, !.vals = <<a.v>>]
SmmaStep(st, c, x) == LET a == WNext(st.a, X(c, x), P(c)) IN [Base(st) EXCEPT !.a = a, !.vals = <<a.v>>]
DemaStep(st, c, x) ==
  LET p == P(c) t == st.t + 1
      e == ENext(st.e, X(c, x), 2, p + 1)
      f1 == IF t <= p THEN ENext(st.f, X(c, x), 2, p + 1) ELSE st.f
      f == IF t >= p THEN ENext(f1, e.v, 2, p + 1) ELSE f1
  IN  [Base(st) EXCEPT !.e = e, !.f = f, !.vals = <<Sub2(Times(e.v, 2), f.v)>>]
KamaStep(st, c, x) ==
  LET p == P(c) t == st.t + 1 w == Push(st.w, x, p + 1)
      v == IF t <= p THEN X(c, x) ELSE KamaNext(st.e.v, x * c.unit, KamaRate(w))
  IN  [Base(st) EXCEPT !.w = w, !.e = [t |-> t, v |-> v], !.vals = <<v>>]
AlmaStep(st, c, x) == LET w == Push(st.w, x, P(c)) IN
  [Base(st) EXCEPT !.w = w, !.vals = IF Len(w) = P(c) THEN <<AlmaValue(w, c)>> ELSE <<Zero>>]

\* ----------------------------------------------------------- oscillators
PCT == 6     \* percentages have 10^-4 resolution: a share with 6 digits
RsiValue(u, d) ==   \* 100 u / (u + d)
  IF u = Zero /\ d = Zero THEN Zero ELSE
  <<IF u[1] = 0 THEN 0 ELSE Down(u[1], u[1] + d[2], PCT), IF u[2] = 0 THEN 0 ELSE Up(u[2], u[2] + d[1], PCT)>>
RsiStep(st, c, x) ==
  IF st.t = 0 THEN [Base(st) EXCEPT !.w = <<x>>, !.vals = <<Zero>>]
  ELSE LET up == WNext(st.a, X(c, Max2(0, x - st.w[1])), P(c))
           dn == WNext(st.b, X(c, Max2(0, st.w[1] - x)), P(c))
       IN  [Base(st) EXCEPT !.w = <<x>>, !.a = up, !.b = dn, !.vals = <<RsiValue(up.v, dn.v)>>]
StochStep(st, c, h, lw, x) ==
  LET hs == Push(st.w, h, c.p[1]) ls == Push(st.w2, lw, c.p[1])
      full == Len(hs) = c.p[1]
      range == MaxS(hs) - MinS(ls)
      fast == IF range = 0 THEN Zero ELSE Share(Pt(x - MinS(ls)), Pt(range), PCT)
      ks == IF full THEN Push(st.w3, fast, c.p[2]) ELSE st.w3
      k == IF ks = <<>> THEN Zero ELSE Average(ks)
      ds == IF full /\ Len(ks) = c.p[2] THEN Push(st.vals, k, c.p[3]) ELSE st.vals
  IN  \* vals doubles as the window of the last k; its average is d
      [Base(st) EXCEPT !.w = hs, !.w2 = ls, !.w3 = ks, !.vals = ds]
StochVals(st) == IF st.vals = <<>> THEN <<Zero, Zero>> ELSE <<st.vals[Len(st.vals)], Average(st.vals)>>

\* Directional movement between consecutive candles.
PlusMove(h0, l0, h, lw) == LET u == Max2(h - h0, 0) d == Max2(l0 - lw, 0) IN IF u >= d THEN u ELSE 0
MinusMove(h0, l0, h, lw) == LET u == Max2(h - h0, 0) d == Max2(l0 - lw, 0) IN IF d >= u THEN d ELSE 0
TrueRange(c0, h, lw) == Max2(h - lw, Max2(Abs(h - c0), Abs(lw - c0)))
Moves(st, c, h, lw, x) ==   \* w = <<h, l, c>> of the previous candle; s, u: +DM, -DM; r: true range
  IF st.t = 0 THEN [Base(st) EXCEPT !.w = <<h, lw, x>>]
  ELSE LET o == st.w IN
    [Base(st) EXCEPT !.w = <<h, lw, x>>,
       !.s = SNext(st.s, X(c, PlusMove(o[1], o[2], h, lw)), P(c)),
       !.u = SNext(st.u, X(c, MinusMove(o[1], o[2], h, lw)), P(c)),
       !.r = SNext(st.r, X(c, TrueRange(o[3], h, lw)), P(c))]
DmStep(st, c, h, lw, x) == LET m == Moves(st, c, h, lw, x) IN [m EXCEPT !.vals = <<m.s.v, m.u.v>>]
DiStep(st, c, h, lw, x) == LET m == Moves(st, c, h, lw, x) IN
  [m EXCEPT !.vals = <<Share(m.s.v, m.r.v, PCT), Share(m.u.v, m.r.v, PCT)>>]
DxValue(m) == IF m.s.v = Zero /\ m.u.v = Zero THEN Zero
              ELSE Share(Dist(m.s.v, m.u.v), Plus2(m.s.v, m.u.v), PCT)
DxStep(st, c, h, lw, x) == LET m == Moves(st, c, h, lw, x) IN [m EXCEPT !.vals = <<DxValue(m)>>]
AdxStep(st, c, h, lw, x) ==
  LET m == Moves(st, c, h, lw, x)
      a == IF m.t >= P(c) THEN WNext(m.a, DxValue(m), P(c)) ELSE m.a
  IN  [m EXCEPT !.a = a, !.vals = <<a.v>>]
\* Moving average convergence/divergence: n/d and n2/d2 smooth short and long.
MacdStep(st, c, x) ==
  LET e == ENext(st.e, X(c, x), c.n, c.d) f == ENext(st.f, X(c, x), c.n2, c.d2)
      ripe == st.t + 1 >= c.p[1] /\ st.t + 1 >= c.p[2]
      v == Sub2(e.v, f.v)
      g == IF ripe THEN ENext(st.g, v, 2, c.p[3] + 1) ELSE st.g
  IN  [Base(st) EXCEPT !.e = e, !.f = f, !.g = g,
         !.vals = IF ripe THEN <<v, g.v, Sub2(v, g.v)>> ELSE <<Zero, Zero, Zero>>]

Step(st, c, h, lw, x) ==
  CASE c.k = "Sma" -> SmaStep(st, c, x) [] c.k = "Ema" -> EmaStep(st, c, x) [] c.k = "Ema2" -> Ema2Step(st, c, x)
    [] c.k = "Dema" -> DemaStep(st, c, x) [] c.k = "Smma" -> SmmaStep(st, c, x) [] c.k = "Kama" -> KamaStep(st, c, x)
    [] c.k = "Alma" -> AlmaStep(st, c, x) [] c.k = "Rsi" -> RsiStep(st, c, x) [] c.k = "Stoch" -> StochStep(st, c, h, lw, x)
    [] c.k = "DM" -> DmStep(st, c, h, lw, x) [] c.k = "DI" -> DiStep(st, c, h, lw, x) [] c.k = "DX" -> DxStep(st, c, h, lw, x)
    [] c.k = "Adx" -> AdxStep(st, c, h, lw, x) [] c.k = "Macd" -> MacdStep(st, c, x)
Vals(st, c) == IF c.k = "Stoch" THEN StochVals(st) ELSE st.vals
Ripe(c) == MatureInd(c.k, c.p)
Averages == {"Sma", "Ema", "Ema2", "Smma", "Kama", "Alma"}
Percents == {"Rsi", "Stoch", "DX", "Adx", "DI"}
\* What was observed narrows the interval where the value is the state.
Narrow(v, o) == IF Max2(v[1], o[1]) > Min2(v[2], o[2]) THEN o ELSE <<Max2(v[1], o[1]), Min2(v[2], o[2])>>
Learn(st, c, y) ==
  CASE c.k \in {"Ema", "Kama"} -> [st EXCEPT !.e.v = Narrow(@, <<y - 1, y + 1>>)]
    [] c.k \in {"Ema2", "Smma"} -> [st EXCEPT !.a.v = Narrow(@, <<y - 1, y + 1>>)]
    [] OTHER -> st
=============================================================================
