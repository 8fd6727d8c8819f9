------------------------------ MODULE CausalTV ------------------------------
EXTENDS Causal, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, l
Ev == Runs[r].ev
e == Ev[l]
More == l <= Len(Ev) /\ e.panic = 0
TVInit == r \in DOMAIN Runs /\ l = 1 /\ Init
Step == l' = l + 1 /\ r' = r
DoExtend == More /\ e.e = "prefix" /\ e.k = Len(done) /\ (Extend(e.t, e.cl, e.op)) /\ Step
DoRepeat == More /\ e.e = "repeat" /\ e.k = Known /\ Repeat(e.cl, e.op) /\ Step
DoAlter == More /\ e.e = "alter" /\ e.k <= Known /\ Alter(e.k, e.cl) /\ Step
Finished == l > Len(Ev) /\ UNCHANGED <<vars, r, l>>
TVNext == DoExtend \/ DoRepeat \/ DoAlter \/ Finished
TVSpec == TVInit /\ [][TVNext]_<<vars, r, l>>
=============================================================================
