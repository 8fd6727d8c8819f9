----------------------------- MODULE Strategies -----------------------------
(* Decision rules of the basic strategies, given their indicators' values.   *)
(* Comparisons of indicator values arrive as signs (-1, 0, 1), closes as     *)
(* integers, the thresholded crossover as values in 1/100000.                *)
EXTENDS Advice, Arith

CONSTANT ASPECTS      \* subset of {"rule", "mature"}
Chk(a, cond) == (a \in ASPECTS) => cond

VARIABLES cfg,      \* [k (kind), ...]
          t,        \* updates so far
          advice,   \* current advice
          ma,       \* advice of the nested crossover (stochastic-screened crossover)
          win       \* previous closes (channel breakout), newest last
vars == <<cfg, t, advice, ma, win>>

InitWith(c) == cfg = c /\ t = 0 /\ advice = None /\ ma = None /\ win = <<>>

RECURSIVE HighTo(_, _)
HighTo(w, i) == IF i = 1 THEN w[1] ELSE Max2(HighTo(w, i - 1), w[i])
RECURSIVE LowTo(_, _)
LowTo(w, i) == IF i = 1 THEN w[1] ELSE Min2(LowTo(w, i - 1), w[i])

Cross(x, prev) == IF x > 0 THEN Long ELSE IF x < 0 THEN Short ELSE prev

\* Single: price beyond a moving average that moves the same way.
\* x: close against average, y: average against its previous value.
Single(x, y) == IF x > 0 /\ y > 0 THEN Long ELSE IF x < 0 /\ y < 0 THEN Short ELSE advice

\* Triple: s/m, m/l, s/l signs; exits when the short one crosses both others.
Triple(sm, ml, sl) ==
  IF sm > 0 /\ ml > 0 THEN Long
  ELSE IF sm < 0 /\ ml < 0 THEN Short
  ELSE IF advice = Short /\ sm > 0 /\ sl > 0 THEN Liquidate
  ELSE IF advice = Long /\ sm < 0 /\ sl < 0 THEN Liquidate
  ELSE advice

\* MACD against its signal line: long above, short otherwise.
MacdRule(x) == IF x > 0 THEN Long ELSE Short

\* Breakout of the channel of previous closes; exit on crossing the average.
Breakout(c, x) ==
  IF c >= HighTo(win, Len(win)) THEN Long
  ELSE IF c <= LowTo(win, Len(win)) THEN Short
  ELSE IF (advice = Long /\ x <= 0) \/ (advice = Short /\ x >= 0) THEN Liquidate
  ELSE advice

\* Crossover by more than a percentage of the mean of both averages: pos, neg over d.
\* Their difference x and their sum m are rounded, so next to the threshold both outcomes are possible.
Percent(x, m) ==
  LET diff == 200 * x * cfg.d
      up == cfg.pos * m
      dn == cfg.neg * m
      eps == 400 * cfg.d
      over == IF Abs(diff - up) <= eps THEN BOOLEAN ELSE {diff > up}
      under == IF Abs(diff - dn) <= eps THEN BOOLEAN ELSE {diff < dn}
  IN  {IF o THEN Long ELSE IF u THEN Short ELSE advice : o \in over, u \in under}

\* Crossover screened by a stochastic; ku, kd, kh: %K against the thresholds and 50.
Screened(m, ku, kd, kh) ==
  LET left == IF advice = Long /\ (m = Short \/ ku >= 0) THEN Liquidate
              ELSE IF advice = Short /\ (m = Long \/ kd < 0) THEN Liquidate
              ELSE advice
  IN  IF left \in {Long, Short} THEN left
      ELSE IF m = Long /\ kh < 0 THEN Long
      ELSE IF m = Short /\ kh >= 0 THEN Short
      ELSE left

Outcomes(x) ==
  CASE cfg.k = "DoubleMA" -> {Cross(x.x, advice)}
    [] cfg.k = "SingleMA" -> {Single(x.x, x.y)}
    [] cfg.k = "TripleMA" -> {Triple(x.sm, x.ml, x.sl)}
    [] cfg.k = "Macd" -> {MacdRule(x.x)}
    [] cfg.k = "FourWeekRule" -> {Breakout(x.c, x.x)}
    [] cfg.k = "DoubleMA2" -> Percent(x.x, x.m)
    [] cfg.k = "DoubleMAStoch" -> {Screened(IF x.dm = 1 THEN Cross(x.x, ma) ELSE ma, x.ku, x.kd, x.kh)}

\* One update: x is what the indicators show, ready whether the strategy may decide,
\* out the resulting advice.
Update(x, ready, out) ==
  /\ t' = t + 1
  /\ Chk("mature", ~ready => out = None)
  /\ Chk("rule", IF ready THEN out \in Outcomes(x) ELSE out = advice)
  /\ advice' = out
  /\ ma' = IF cfg.k = "DoubleMAStoch" /\ x.dm = 1 THEN Cross(x.x, ma) ELSE ma
  /\ win' = IF cfg.k = "FourWeekRule"
            THEN (IF Len(win) = cfg.period THEN Append(Tail(win), x.c) ELSE Append(win, x.c)) ELSE win
  /\ UNCHANGED cfg
=============================================================================
