------------------------------ MODULE EasingTV ------------------------------
EXTENDS Easing, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, l
Ev == Runs[r].ev
e == Ev[l]
Is(k) == l <= Len(Ev) /\ e.e = k
Step == l' = l + 1 /\ r' = r
TVInit == r \in DOMAIN Runs /\ l = 1
DoAt == Is("at") /\ At(e.f, e.v, e.i, e.y) /\ Step
DoWithin == Is("in") /\ Within(e.f, e.v, e.i, e.y) /\ Step
DoNear == Is("near") /\ CloseBy(e.f, e.v, e.side, e.k, e.y) /\ Step
Finished == l > Len(Ev) /\ UNCHANGED <<r, l>>
TVNext == DoAt \/ DoWithin \/ DoNear \/ Finished
TVSpec == TVInit /\ [][TVNext]_<<r, l>>
=============================================================================
