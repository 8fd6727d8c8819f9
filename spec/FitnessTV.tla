----------------------------- MODULE FitnessTV -----------------------------
(* Recorded evaluations by the real code: the same parameters always get the  *)
(* same fitness, and it is the aggregate of the statistic over the symbols.   *)
EXTENDS Fitness, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, l, known
vars == <<r, l, known>>
C == Runs[r].cfg
Ev == Runs[r].ev
e == Ev[l]
Is(x) == l <= Len(Ev) /\ e.e = x
Step == l' = l + 1 /\ r' = r
TVInit == r \in DOMAIN Runs /\ l = 1 /\ known = [i \in {} |-> ""]
\* Whoever was evaluated before, in whatever company, gets the same fitness again.
DoEval == /\ Is("eval") /\ Step
          /\ (\A j \in DOMAIN e.ix : e.ix[j] \in DOMAIN known => known[e.ix[j]] = e.fit[j]) = TRUE
          /\ (\A j, k \in DOMAIN e.ix : e.ix[j] = e.ix[k] => e.fit[j] = e.fit[k]) = TRUE
          /\ known' = [i \in DOMAIN known \cup {e.ix[j] : j \in DOMAIN e.ix} |->
                        IF i \in DOMAIN known THEN known[i]
                        ELSE e.fit[CHOOSE j \in DOMAIN e.ix : e.ix[j] = i]]
Unseen == -999999999
Judged(vals) == \A i \in DOMAIN vals : vals[i] # Unseen
\* Magnitudes are logarithms scaled by 10000.
PenaltyOK(vals) ==
  LET w == WorstLoss(vals) n == Len(Losses(vals)) IN
  /\ e.sign = -1
  /\ \/ e.mag = 999999999 /\ w > 306 * S
     \/ e.mag >= (w + S) \div 10 - (IF Len(vals) = n THEN 3 ELSE 200) /\ e.mag <= (w + S) \div 10 + 3 + (IF n = 1 THEN 0 ELSE IF n = 2 THEN 3011 ELSE 4772)
LogOK(vals) ==
  IF Losses(vals) = <<>> THEN Close(e.fit, Gains(vals), 12 * Len(vals))
  ELSE IF WorstLoss(vals) > 2 * S THEN PenaltyOK(vals)
  ELSE LET p == Penalties(vals) IN Close(e.fit \div 10, Gains(vals) \div 10 - p, 10 + p \div 2000)
Value(vals) ==
  CASE C.agg = "linear" -> Close(e.fit, Linear(vals), 2 + Len(vals))
    [] C.agg = "log10" -> LogOK(vals)
    [] OTHER -> LogOK(Factored(vals))
Fits(vals) == \A i \in DOMAIN vals : Abs(vals[i]) < IF C.agg = "factored" THEN 90000000 ELSE 600000000
DoValue == /\ Is("value") /\ Step
           /\ e.turned = TRUE
           /\ (~Judged(e.vals) \/ (~Fits(e.vals)) \/ Value(e.vals)) = TRUE
           /\ UNCHANGED known
Finished == l > Len(Ev) /\ UNCHANGED vars
TVNext == DoEval \/ DoValue \/ Finished
TVSpec == TVInit /\ [][TVNext]_vars
=============================================================================
