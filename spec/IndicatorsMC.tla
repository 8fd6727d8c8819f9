---------------------------- MODULE IndicatorsMC ----------------------------
(* Every indicator with every small period on every short candle history.     *)
EXTENDS Indicators
CONSTANTS LEN, PRICES, PERIODS, KINDS
VARIABLES c, st, mir, hist
vars == <<c, st, mir, hist>>
Cfg(k, p, q) == [k |-> k, p |-> p, n |-> 2, d |-> p[1] + 1, n2 |-> 2, d2 |-> p[2] + 1,
                 off |-> <<85, 100>>, sigma |-> 0, unit |-> q]
Init == /\ c \in {Cfg(k, <<p, q, 2>>, 1000) : k \in KINDS, p \in PERIODS, q \in {1, 2}}
        /\ st = Start /\ mir = Start /\ hist = <<>>
TOPP == MaxS(<<CHOOSE x \in PRICES : \A y \in PRICES : y <= x>>)
Feed(x, w) ==   \* close x, other end of the candle w
  /\ Len(hist) < LEN
  /\ LET h == Max2(x, w) lw == Min2(x, w) IN
     /\ st' = Step(st, c, h, lw, x)
     /\ mir' = Step(mir, c, TOPP - lw, TOPP - h, TOPP - x)     \* the market upside down
     /\ hist' = Append(hist, [h |-> h, l |-> lw, c |-> x])
  /\ c' = c
Next == \E x \in PRICES, w \in PRICES :
  /\ (c.k \in {"Stoch", "DM", "DI", "DX", "Adx"} \/ w = x)
  /\ Feed(x, w)
Spec == Init /\ [][Next]_vars
Closes == [i \in DOMAIN hist |-> hist[i].c]
RipeNow == st.t >= Ripe(c)
V == Vals(st, c)
Flat == \A i \in DOMAIN hist : hist[i] = hist[1] /\ hist[i].h = hist[i].l
Ordered == \A i \in DOMAIN V : V[i][1] <= V[i][2]
\* Within the range of prices where the definition implies it.
InRange == (RipeNow /\ c.k \in Averages) => /\ V[1][2] >= MinS(Closes) * c.unit - 5
                                            /\ V[1][1] <= MaxS(Closes) * c.unit + 5
Tight == (RipeNow /\ c.k \in Averages) => V[1][2] - V[1][1] <= 60
Percent == (RipeNow /\ c.k \in Percents) => \A i \in DOMAIN V : V[i][1] >= 0 /\ V[i][2] <= 1000000
FlatAverage == (RipeNow /\ Flat /\ c.k \in (Averages \cup {"Dema"})) =>
                 V[1][1] - 5 <= hist[1].c * c.unit /\ hist[1].c * c.unit <= V[1][2] + 5
FlatOscillator == (RipeNow /\ Flat /\ c.k \in (Percents \cup {"DM", "Macd"})) => \A i \in DOMAIN V : V[i][1] <= 0 /\ V[i][2] >= 0
\* Simple averages are averages.
SmaDirect == (RipeNow /\ c.k = "Sma") =>
  LET n == Len(hist) s == SumI([i \in 1..P(c) |-> Closes[n - P(c) + i]]) IN V[1][1] * P(c) <= s * c.unit /\ s * c.unit <= V[1][2] * P(c)
\* Upside down, ups are downs: RSI mirrors at 50, DM and DI swap, DX and ADX stay.
Mirror == RipeNow => LET W == Vals(mir, c) IN
  CASE c.k = "Rsi" -> (st.a.v = Zero /\ st.b.v = Zero) \/ (V[1][1] + W[1][1] <= 1000000 /\ V[1][2] + W[1][2] >= 1000000)
    [] c.k \in {"DM", "DI"} -> V[1] = W[2] /\ V[2] = W[1]
    [] c.k \in {"DX", "Adx"} -> V = W
    [] c.k \in Averages -> V[1][1] + W[1][1] <= TOPP * c.unit + 8 /\ V[1][2] + W[1][2] >= TOPP * c.unit - 8
    [] OTHER -> TRUE
Rising == \A i \in 2..Len(hist) : Closes[i] >= Closes[i - 1]
AllUp == (RipeNow /\ c.k = "Rsi" /\ Rising /\ st.a.v[1] > 0) => V[1][2] = 1000000 /\ V[1][1] >= 999999
\* The recurrence is the exponentially weighted sum.
EmaDirect == (c.k = "Ema" /\ P(c) = 1 /\ RipeNow) => V[1] = Pt(Closes[Len(hist)] * c.unit)
=============================================================================
