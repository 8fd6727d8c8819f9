------------------------------ MODULE FiltersTV ------------------------------
EXTENDS Filters, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, l
Cfg == Runs[r].cfg
Ev == Runs[r].ev
e == Ev[l]
ex == Cfg.ex = 1
Is(k) == l <= Len(Ev) /\ e.e = k
Step == l' = l + 1 /\ r' = r
TVInit == r \in DOMAIN Runs /\ l = 1
DoDown == Is("down") /\ e.out \in DownSet(Cfg.f, e.x, ex) /\ Step
DoUp == Is("up") /\ e.out \in UpSet(Cfg.f, e.x, ex) /\ Step
DoValid == Is("valid") /\ (ex => (e.out = 1 <=> Valid(Cfg.f, e.x))) /\ Step
DoWideDown == Is("widedown") /\ e.on = 1 /\ WideDown(Cfg.w, e.x, e.q, e.out, ex) /\ Step
DoWideUp == Is("wideup") /\ e.on = 1 /\ WideUp(Cfg.w, e.x, e.q, e.out, ex) /\ Step
DoWideValid == Is("widevalid") /\ (ex => (e.out = <<1>>) = WideValid(Cfg.w, e.x, e.rem)) /\ Step
Finished == l > Len(Ev) /\ UNCHANGED <<r, l>>
TVNext == DoDown \/ DoUp \/ DoValid \/ DoWideDown \/ DoWideUp \/ DoWideValid \/ Finished
TVSpec == TVInit /\ [][TVNext]_<<r, l>>
=============================================================================
