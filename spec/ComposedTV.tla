----------------------------- MODULE ComposedTV -----------------------------
EXTENDS Composed, Maturity, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, l
Ev == Runs[r].ev
e == Ev[l]
More == l <= Len(Ev) /\ e.e = "c"
Step == l' = l + 1 /\ r' = r
TVInit == r \in DOMAIN Runs /\ l = 1 /\ InitWith(Runs[r].cfg)
Ready == e.sm = 1 /\ e.om = 1
Logged == Chk("advice", e.adv = advice')
          /\ Chk("mature", (l = 1 => e.maty = MatureStrat(cfg.params)) /\ e.mat = IF t' >= e.maty THEN 1 ELSE 0)
\* Nothing may be advised before the inner parts are mature.
DoBuffer == More /\ e.b = 0 /\ Buffer /\ Logged /\ Step
DoWarm == More /\ e.b = 1 /\ ~Ready /\ Warm /\ Logged /\ Step
DoDecide == More /\ e.b = 1 /\ Ready /\ Decide(e.sa, e.ob = 1, e.os = 1) /\ Logged /\ Step
Finished == l > Len(Ev) /\ UNCHANGED <<vars, r, l>>
TVNext == DoBuffer \/ DoWarm \/ DoDecide \/ Finished
TVSpec == TVInit /\ [][TVNext]_<<vars, r, l>>
=============================================================================
