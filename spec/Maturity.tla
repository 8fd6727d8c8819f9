------------------------------ MODULE Maturity ------------------------------
(* After how many updates an indicator or strategy has seen all it needs:    *)
(* the maturity it has to announce.                                          *)
EXTENDS Integers
LOCAL Most(a, b) == IF a > b THEN a ELSE b
\* An indicator k with periods p.
MatureInd(k, p) ==
  CASE k \in {"Sma", "Ema", "Ema2", "Alma", "DM", "DI", "DX"} -> p[1]
    [] k \in {"Smma", "Kama", "Rsi"} -> p[1] + 1
    [] k = "Dema" -> 2 * p[1] - 1
    [] k = "Stoch" -> p[1] + p[2] + p[3] - 2
    [] k = "Adx" -> 2 * p[1]
    [] k = "Macd" -> Most(p[1], p[2]) + p[3] - 1
LOCAL Avg(m) == MatureInd(m.type, <<m.period>>)
RECURSIVE MatureStrat(_)
LOCAL Filters(s) == Most(IF s.mid_trend_policy = "Current" THEN 1 ELSE 2, s.persistence + 1) - 1
\* A strategy or oscillator with parameters s.
MatureStrat(s) ==
  CASE s.type \in {"DoubleMA", "DoubleMA2"} -> Most(Avg(s.mas[1]), Avg(s.mas[2]))
    [] s.type = "TripleMA" -> Most(Avg(s.mas[1]), Most(Avg(s.mas[2]), Avg(s.mas[3])))
    [] s.type = "SingleMA" -> Avg(s.ma) + 1            \* whether it rises needs its previous value
    [] s.type = "FourWeekRule" -> Most(s.period + 1, Avg(s.ma))
    [] s.type = "Macd" -> MatureInd("Macd", <<s.periods[1], s.periods[2], s.signal_period>>)
    [] s.type = "DoubleMAStoch" ->
         Most(Most(Avg(s.double_ma.mas[1]), Avg(s.double_ma.mas[2])),
              MatureInd("Stoch", <<s.stoch.k_period, s.stoch.k_sma_period, s.stoch.d_sma_period>>))
    [] s.type = "Rsi" -> MatureInd("Rsi", <<s.period>>)
    [] s.type = "Stoch" -> MatureInd("Stoch", <<s.k_period, s.k_sma_period, s.d_sma_period>>)
    [] s.type = "Sig" -> MatureStrat(s.sig) + Filters(s)
    [] s.type = "SigOsc" -> Most(MatureStrat(s.sig), MatureStrat(s.osc)) + Filters(s)
=============================================================================
