------------------------------- MODULE ExitTV -------------------------------
EXTENDS ExitLoop, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, l
Ev == Runs[r].ev
e == Ev[l]
More == l <= Len(Ev) /\ e.e = "c"
TVInit == r \in DOMAIN Runs /\ l = 1 /\ InitWith(Runs[r].cfg)
Same == UNCHANGED <<r, l>>
Step == l' = l + 1 /\ r' = r
B(x) == x = 1
DoUpdate == More /\ Update(e.c, e.p) /\ Same
DoAsk == More /\ Ask(B(e.su), B(e.sd), B(e.tu), B(e.td)) /\ Same
DoRearm == More /\ e.cl = 1 /\ Rearm /\ Step
DoKeep == More /\ e.cl = 0 /\ Keep /\ Step
Finished == l > Len(Ev) /\ UNCHANGED <<vars, r, l>>
TVNext == DoUpdate \/ DoAsk \/ DoRearm \/ DoKeep \/ Finished
TVSpec == TVInit /\ [][TVNext]_<<vars, r, l>>
=============================================================================
