---------------------------- MODULE ChromosomeTV ----------------------------
(* ASPECTS: valid (what is generated, instantiated, kept pinned), gene (what  *)
(* crossover and mutation touch).                                             *)
EXTENDS Schemas, Json, IOUtils
CONSTANT ASPECTS
Chk(a, c) == (a \notin ASPECTS \/ c) = TRUE
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, l
Ev == Runs[r].ev
e == Ev[l]
S == Schema(Runs[r].cfg.t)
Ctx == Runs[r].cfg.ctx
Is(x) == l <= Len(Ev) /\ e.e = x
Step == l' = l + 1 /\ r' = r
TVInit == r \in DOMAIN Runs /\ l = 1
DoLen == Is("len") /\ Chk("gene", e.n = Width(S)) /\ Step
DoGen == Is("gen") /\ Chk("valid", Valid(S, e.v, Ctx) /\ e.built = 1) /\ Step
DoCross == Is("cross") /\ Chk("gene", Cross(S, e.a, e.b, e.i) = <<e.a2, e.b2>>) /\ Step
\* A pinned, already valid value stays; anything else about the new value is a matter of validity.
DoMutate == Is("mutate") /\ Chk("gene", Mutated(S, e.a, e.i, e.a2)) /\ Chk("valid", Valid(S, e.a2, Ctx)) /\ Step
DoSame == Is("same") /\ Chk("valid", e.a = e.b) /\ Step
\* How far from the end of its range the extreme of n draws may be: all but impossible further for
\* values drawn evenly, and a third of the range for those bound to others.
Close(x, n) == 1 + IF x.even THEN (((x.hi - x.lo) \div n) * 24) + 24 ELSE (x.hi - x.lo) \div 3
Enough(x, n) == n >= IF x.even THEN 24 ELSE 1000
Set(s) == {s[j] : j \in DOMAIN s}
DoWords == Is("words") /\ Chk("valid", \E x \in Words(S) : x.at = e.at /\ x.set = Set(e.set)) /\ Step
DoRange == Is("range") /\ Step /\ Chk("valid",
             \E x \in Ranges(S) : x.at = e.at /\ e.lo >= x.lo /\ e.hi <= x.hi /\ (Enough(x, e.n) => e.lo - x.lo <= Close(x, e.n) /\ x.hi - e.hi <= Close(x, e.n)))
\* Every alternative that is one or two choices away shows up.
DoAll == /\ Is("all") /\ Step
         /\ Chk("valid", {x.at : x \in {y \in Words(S) : Len(y.at) <= 3}} = Set(e.words)
                         /\ {x.at : x \in {y \in Ranges(S) : Len(y.at) <= 3}} \subseteq Set(e.ranges))
\* Generation and mutation choose among all the requested intervals.
DoIntervals == Is("intervals") /\ Chk("valid", Set(e.set) = Set(Ctx.trader.intervals)) /\ Step
Finished == l > Len(Ev) /\ UNCHANGED <<r, l>>
TVNext == DoLen \/ DoGen \/ DoCross \/ DoMutate \/ DoSame \/ DoWords \/ DoRange \/ DoAll \/ DoIntervals \/ Finished
TVSpec == TVInit /\ [][TVNext]_<<r, l>>
=============================================================================
