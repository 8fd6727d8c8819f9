----------------------------- MODULE SymbolsTV -----------------------------
EXTENDS Symbols, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, l
Ev == Runs[r].ev
e == Ev[l]
Is(k) == l <= Len(Ev) /\ e.e = k
Step == l' = l + 1 /\ r' = r
TVInit == r \in DOMAIN Runs /\ l = 1
DoSplit == Is("split") /\ (IF IsSymbol(e.s) THEN e.ok = 1 /\ e.both = Assets(e.s) /\ e.base = Base(e.s) /\ e.quote = Quote(e.s)
                           ELSE e.ok = 0) /\ Step
DoIter == Is("iter") /\ e.out = AllAssets(e.ss) /\ Step
DoFills == Is("fills") /\ e.size = TotalOf(e.fs, 1) /\ e.quote = TotalOf(e.fs, 2) /\ e.fee = TotalOf(e.fs, 3) /\ Step
\* A candle taken up into another one: <<time, open, high, low, close, volume>>.
Join(a, b) == <<a[1], a[2], IF b[3] > a[3] THEN b[3] ELSE a[3], IF b[4] < a[4] THEN b[4] ELSE a[4], b[5], a[6] + b[6]>>
DoJoin == Is("join") /\ e.out = Join(e.a, e.b) /\ Step
Finished == l > Len(Ev) /\ UNCHANGED <<r, l>>
TVNext == DoSplit \/ DoIter \/ DoFills \/ DoJoin \/ Finished
TVSpec == TVInit /\ [][TVNext]_<<r, l>>
=============================================================================
