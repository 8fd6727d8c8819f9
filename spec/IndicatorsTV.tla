---------------------------- MODULE IndicatorsTV ----------------------------
EXTENDS Indicators, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, l, st, lo, hi
Cfg == Runs[r].cfg
Ev == Runs[r].ev
e == Ev[l]
TVInit == r \in DOMAIN Runs /\ l = 1 /\ st = Start /\ lo = 0 /\ hi = 0
TOL == 2
Inside(y, v) == v[1] - TOL <= y /\ y <= v[2] + TOL
Follows(s) == LET v == Vals(s, Cfg) IN Len(e.v) = Len(v) /\ \A i \in DOMAIN v : Inside(e.v[i], v[i])
Bounded == /\ Cfg.k \in Averages => Inside(e.v[1], <<lo' * Cfg.unit, hi' * Cfg.unit>>)
           /\ Cfg.k \in Percents => \A i \in DOMAIN e.v : Inside(e.v[i], <<0, 1000000>>)
DoUpdate ==
  /\ l <= Len(Ev) /\ e.e = "u" /\ e.fin = 1
  /\ lo' = (IF l = 1 THEN e.c ELSE Min2(lo, e.c)) /\ hi' = (IF l = 1 THEN e.c ELSE Max2(hi, e.c))
  /\ LET s == Step(st, Cfg, e.h, e.l, e.c) IN
     IF s.t >= Ripe(Cfg) THEN Follows(s) /\ Bounded /\ st' = Learn(s, Cfg, e.v[1]) ELSE st' = s
  /\ l' = l + 1 /\ r' = r
Finished == l > Len(Ev) /\ UNCHANGED <<r, l, st, lo, hi>>
TVNext == DoUpdate \/ Finished
TVSpec == TVInit /\ [][TVNext]_<<r, l, st, lo, hi>>
=============================================================================
