----------------------------- MODULE CalendarTV -----------------------------
EXTENDS Calendar, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, l
Ev == Runs[r].ev
e == Ev[l]
Is(k) == l <= Len(Ev) /\ e.e = k
Step == l' = l + 1 /\ r' = r
TVInit == r \in DOMAIN Runs /\ l = 1
DoFloor == Is("floor") /\ e.out = Floor(e.t, e.iv) /\ Step
DoCeil == Is("ceil") /\ e.out = Ceil(e.t, e.iv) /\ Step
\* Intervals rounded up to a multiple of another.
DoSpan == Is("span") /\ e.out = CeilDiv(e.a, e.b) * e.b /\ Step
Finished == l > Len(Ev) /\ UNCHANGED <<r, l>>
TVNext == DoFloor \/ DoCeil \/ DoSpan \/ Finished
TVSpec == TVInit /\ [][TVNext]_<<r, l>>
=============================================================================
