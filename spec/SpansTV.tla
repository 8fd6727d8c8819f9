------------------------------- MODULE SpansTV -------------------------------
(* Times are logged relative to a base and in units of a scale factor.        *)
EXTENDS Spans, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, l
Ev == Runs[r].ev
e == Ev[l]
Is(k) == l <= Len(Ev) /\ e.e = k
Step == l' = l + 1 /\ r' = r
TVInit == r \in DOMAIN Runs /\ l = 1
DoMerge == Is("merge") /\ Wellformed(e.ss) /\ Merged(e.ss, e.out) /\ Step
DoMissing == Is("missing") /\ Wellformed(e.ss) /\ Missing(e.a, e.b, e.ss, e.out) /\ Step
DoPage == Is("page") /\ Paged(e.a, e.b, e.iv, e.lim, e.out) /\ Step
Finished == l > Len(Ev) /\ UNCHANGED <<r, l>>
TVNext == DoMerge \/ DoMissing \/ DoPage \/ Finished
TVSpec == TVInit /\ [][TVNext]_<<r, l>>
=============================================================================
