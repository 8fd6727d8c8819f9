------------------------------ MODULE AdviceTV ------------------------------
(* Recorded filters.  cfg: [f, on, policy, level, back].                     *)
EXTENDS Advice, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, l, s
Cfg == Runs[r].cfg
Ev == Runs[r].ev
e == Ev[l]
Is(f) == l <= Len(Ev) /\ e.e = "a" /\ Cfg.f = f
Step == l' = l + 1 /\ r' = r
TVInit == r \in DOMAIN Runs /\ l = 1
          /\ s = CASE Cfg.f = "changed" -> ChangedInit [] Cfg.f = "mid" -> MidInit
                   [] Cfg.f = "pers" -> PersInit [] OTHER -> 0
On == Cfg.on = 1
Back == Cfg.back = 1
DoChanged ==
  /\ Is("changed") /\ e.out = ChangedOut(s, e.in, On) /\ s' = ChangedNext(s, e.in, On)
  /\ On => e.last = s'.last /\ e.age = s'.age
  /\ Step
\* The advice just given, n more times.
DoRepeat ==
  /\ l <= Len(Ev) /\ e.e = "r" /\ Cfg.f = "changed" /\ e.same = 1
  /\ e.out = ChangedOut(s, e.in, On) /\ ~(On /\ ChangedPasses(s, e.in))
  /\ s' = (IF On THEN [s EXCEPT !.age = @ + e.n] ELSE s)
  /\ On => e.last = s'.last /\ e.age = s'.age
  /\ Step
DoMid == Is("mid") /\ e.out = MidOut(s, e.in, Cfg.policy) /\ s' = MidNext(s, e.in, Cfg.policy) /\ Step
DoPersistence ==
  Is("pers") /\ e.out = PersOut(s, e.in, Cfg.level, Back) /\ s' = PersNext(s, e.in, Cfg.level) /\ Step
DoCombine == Is("combine") /\ e.out = Combine(e.in, e.b) /\ s' = s /\ Step
Finished == l > Len(Ev) /\ UNCHANGED <<r, l, s>>
TVNext == DoChanged \/ DoRepeat \/ DoMid \/ DoPersistence \/ DoCombine \/ Finished
TVSpec == TVInit /\ [][TVNext]_<<r, l, s>>
=============================================================================
