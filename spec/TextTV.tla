------------------------------- MODULE TextTV -------------------------------
EXTENDS Text, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, l
Ev == Runs[r].ev
e == Ev[l]
Is(k) == l <= Len(Ev) /\ e.e = k
Step == l' = l + 1 /\ r' = r
TVInit == r \in DOMAIN Runs /\ l = 1
Says(v) == IF v = REJECT THEN e.ok = 0 ELSE e.ok = 1 /\ e.v = v
\* What is printed denotes the value.
DoPrintInterval == Is("iprint") /\ Groups(e.cs) /\ IntervalDenotes(e.cs) = e.v /\ Step
DoPrintTime == Is("tprint") /\ TimeText(e.cs) /\ TimeDenotes(e.cs) = e.v /\ Step
\* What is parsed is what is denoted.
DoParseInterval == Is("iparse") /\ Groups(e.cs) /\ Says(IntervalDenotes(e.cs)) /\ Step
DoParseTime == Is("tparse") /\ Says(PointDenotes(e.cs)) /\ Step
\* Any other text: read or rejected, but the process survives.
DoSurvive == Is("any") /\ e.ok \in {0, 1} /\ Step
\* Printed (as text or JSON) and read back.
DoRoundTrip == Is("round") /\ e.ok = 1 /\ e.back = e.v /\ Step
Finished == l > Len(Ev) /\ UNCHANGED <<r, l>>
TVNext == DoPrintInterval \/ DoPrintTime \/ DoParseInterval \/ DoParseTime \/ DoSurvive \/ DoRoundTrip \/ Finished
TVSpec == TVInit /\ [][TVNext]_<<r, l>>
=============================================================================
