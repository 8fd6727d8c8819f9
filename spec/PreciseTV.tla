------------------------------ MODULE PreciseTV ------------------------------
EXTENDS Precise, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, l, st
Cfg == Runs[r].cfg
Ev == Runs[r].ev
e == Ev[l]
TVInit == r \in DOMAIN Runs /\ l = 1 /\ st = PStart
DoUpdate ==
  /\ l <= Len(Ev) /\ e.e = "u" /\ e.fin = 1
  /\ LET s == PStep(st, Cfg, e.h, e.l, e.c) IN
     /\ st' = s
     /\ (s.t >= PRipe(Cfg) => Shows(s, Cfg, e.y)) = TRUE
  /\ l' = l + 1 /\ r' = r
Finished == l > Len(Ev) /\ UNCHANGED <<r, l, st>>
TVNext == DoUpdate \/ Finished
TVSpec == TVInit /\ [][TVNext]_<<r, l, st>>
=============================================================================
