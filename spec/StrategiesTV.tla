---------------------------- MODULE StrategiesTV ----------------------------
(* cfg.k names the strategy; "osc": an oscillator; "ind": an indicator       *)
(* (maturity only).                                                          *)
EXTENDS Strategies, Maturity, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, l
Ev == Runs[r].ev
e == Ev[l]
More == l <= Len(Ev)
Step == l' = l + 1 /\ r' = r
TVInit == r \in DOMAIN Runs /\ l = 1 /\ InitWith(Runs[r].cfg)
Rule == cfg.k \notin {"osc", "ind"}
\* Announced maturity never changes and is reached exactly on time, for good.
Announced == IF cfg.k = "ind" THEN MatureInd(cfg.name, cfg.p) ELSE MatureStrat(cfg.params)
OnTime(n) == Chk("mature", e.maty = cfg.maty /\ (n = 1 => e.maty = Announced) /\ e.mat = IF n >= cfg.maty THEN 1 ELSE 0)
DoStrategy ==
  /\ More /\ e.e = "s" /\ Rule
  /\ Update(e.x, IF "mature" \in ASPECTS THEN e.ready = 1 ELSE e.mat = 1, e.adv)
  /\ OnTime(t + 1) /\ Step
\* Oscillators: overbought at or above the upper, oversold below the lower threshold.
DoOscillator ==
  /\ More /\ e.e = "o" /\ cfg.k = "osc"
  /\ Chk("rule", /\ e.ob = IF e.mat = 1 /\ e.up >= 0 THEN 1 ELSE 0
                 /\ e.os = IF e.mat = 1 /\ e.dn < 0 THEN 1 ELSE 0)
  /\ OnTime(t + 1) /\ t' = t + 1 /\ UNCHANGED <<cfg, advice, ma, win>> /\ Step
DoIndicator ==
  /\ More /\ e.e = "i" /\ cfg.k = "ind"
  /\ OnTime(t + 1) /\ t' = t + 1 /\ UNCHANGED <<cfg, advice, ma, win>> /\ Step
Finished == l > Len(Ev) /\ UNCHANGED <<vars, r, l>>
TVNext == DoStrategy \/ DoOscillator \/ DoIndicator \/ Finished
TVSpec == TVInit /\ [][TVNext]_<<vars, r, l>>
=============================================================================
