---------------------------- MODULE DurationsTV ----------------------------
EXTENDS Durations, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, l
Ev == Runs[r].ev
e == Ev[l]
Is(k) == l <= Len(Ev) /\ e.e = k
Step == l' = l + 1 /\ r' = r
TVInit == r \in DOMAIN Runs /\ l = 1
\* outs: the same question put in every way the library offers.
All(P(_)) == \A i \in DOMAIN e.outs : P(e.outs[i])
DoAdd == Is("add") /\ (LET P(o) == Sum(e.a, e.b, o) IN All(P)) /\ Step
DoSub == Is("sub") /\ (LET P(o) == Difference(e.a, e.b, o) IN All(P)) /\ Step
DoMul == Is("mul") /\ (LET P(o) == Product(e.a, e.b, o) IN All(P)) /\ Step
DoRem == Is("rem") /\ (LET P(o) == Remainder(e.a, e.b, e.k, o) IN All(P)) /\ Step
DoFloor == Is("floor") /\ (LET P(o) == FloorOf(e.a, e.b, e.k, o) IN All(P)) /\ Step
DoCeil == Is("ceil") /\ (LET P(o) == CeilOf(e.a, e.b, e.k, o) IN All(P)) /\ Step
DoFloorFrom == Is("floorfrom") /\ (LET P(o) == FloorFrom(e.a, e.b, e.o, e.k, e.s, o) IN All(P)) /\ Step
DoCeilFrom == Is("ceilfrom") /\ (LET P(o) == CeilFrom(e.a, e.b, e.o, e.k, e.s, o) IN All(P)) /\ Step
\* Conversions to and from plain numbers.
DoSame == Is("same") /\ (LET P(o) == o = e.a IN All(P)) /\ Step
DoOrder == Is("order") /\ (LET P(o) == o = Order(e.a, e.b) IN All(P)) /\ Step
DoUnit == Is("unit") /\ e.a = Unit[e.name] /\ Step
\* The present lies between two readings of the system's clock.
DoNow == Is("now") /\ ~Less(e.now, e.before) /\ ~Less(e.after, e.now) /\ Step
Finished == l > Len(Ev) /\ UNCHANGED <<r, l>>
TVNext == DoAdd \/ DoSub \/ DoMul \/ DoRem \/ DoFloor \/ DoCeil \/ DoFloorFrom \/ DoCeilFrom \/ DoSame \/ DoOrder
          \/ DoUnit \/ DoNow \/ Finished
TVSpec == TVInit /\ [][TVNext]_<<r, l>>
=============================================================================
