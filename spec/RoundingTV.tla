----------------------------- MODULE RoundingTV -----------------------------
EXTENDS Rounding, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, l
Ev == Runs[r].ev
e == Ev[l]
Is(k) == l <= Len(Ev) /\ e.e = k
Step == l' = l + 1 /\ r' = r
TVInit == r \in DOMAIN Runs /\ l = 1
DoDown == Is("down") /\ e.on = 1 /\ RoundDown(e.a, e.d, e.p, e.n, e.exact = 1) /\ Step
DoHalf == Is("half") /\ e.on = 1 /\ RoundHalfUp(e.a, e.d, e.p, e.n, e.exact = 1) /\ Step
DoLarge == Is("large") /\ Kept(e.v, e.out) /\ Step
DoMean == Is("mean") /\ (IF e.xs = <<>> THEN e.none = 1 ELSE e.none = 0 /\ MeanIs(e.xs, e.out)) /\ Step
DoDev == Is("dev") /\ (IF e.xs = <<>> THEN e.none = 1 ELSE e.none = 0 /\ DeviationIs(e.xs, e.out)) /\ Step
DoLerp == Is("lerp") /\ e.out = Between(e.a, e.b, e.t) /\ Step
DoPairs == Is("pairs") /\ e.out = Pairs(e.xs) /\ Step
DoMinMax == Is("minmax") /\ (IF e.xs = <<>> THEN e.none = 1 ELSE e.none = 0 /\ e.lo = LeastOf(e.xs) /\ e.hi = MostOf(e.xs)) /\ Step
DoAdler == Is("adler") /\ Adler(e.cs, 1, 0) = <<e.lo, e.hi>> /\ Step
DoPerYear == Is("peryear") /\ PerYear(e.g, e.k, e.out) /\ Step
DoYears == Is("years") /\ OverYears(e.g, e.k, e.out) /\ Step
\* No time, or a loss beyond everything: nothing a year.
DoNothing == Is("nothing") /\ e.out = 0 /\ Step
DoMounting == Is("mounting") /\ Mounting(e.g, e.k, e.out) /\ Step
Finished == l > Len(Ev) /\ UNCHANGED <<r, l>>
TVNext == DoDown \/ DoLarge \/ DoHalf \/ DoMean \/ DoDev \/ DoLerp \/ DoPairs \/ DoMinMax \/ DoAdler \/ DoPerYear \/ DoYears
          \/ DoNothing \/ DoMounting \/ Finished
TVSpec == TVInit /\ [][TVNext]_<<r, l>>
=============================================================================
