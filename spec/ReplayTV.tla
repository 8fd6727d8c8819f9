------------------------------ MODULE ReplayTV ------------------------------
(* Recorded optimisations of the real code: reruns under other schedules,     *)
(* thread counts and processes give the same generations, bit by bit.         *)
EXTENDS Integers, Sequences, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, l, first, free, others
vars == <<r, l, first, free, others>>
C == Runs[r].cfg
Ev == Runs[r].ev
e == Ev[l]
Is(x, hows) == l <= Len(Ev) /\ e.e = x /\ e.how \in hows
Step == l' = l + 1 /\ r' = r
TVInit == r \in DOMAIN Runs /\ l = 1 /\ first = <<>> /\ free = <<>> /\ others = {}
Whole == Len(e.gens) = C.gens + 1
DoFirst == Is("run", {"first"}) /\ Step /\ Whole /\ e.seed = C.seed /\ first' = e.gens /\ UNCHANGED <<free, others>>
DoAgain == Is("run", {"again", "pool", "together", "process"}) /\ Step /\ e.seed = C.seed /\ e.gens = first
           /\ UNCHANGED <<first, free, others>>
\* Without a seed one is chosen, reported, and reproduces what it did.
DoFree == Is("run", {"free"}) /\ Step /\ Whole /\ free' = <<e.seed, e.gens>> /\ e.gens # first /\ UNCHANGED <<first, others>>
DoReported == Is("run", {"reported"}) /\ Step /\ <<e.seed, e.gens>> = free /\ UNCHANGED <<first, free, others>>
\* Other seeds lead elsewhere.
DoOther == Is("run", {"other", "free again"}) /\ Step /\ Whole /\ e.seed # C.seed /\ e.gens # first /\ e.gens # free[2]
           /\ e.gens \notin others /\ others' = others \cup {e.gens} /\ UNCHANGED <<first, free>>
Finished == l > Len(Ev) /\ UNCHANGED vars
\* Hall-of-fame individuals evaluated once more, on their own.
DoFame == Is("fame", {"fame"}) /\ Step /\ e.fit = e.again /\ UNCHANGED <<first, free, others>>
TVNext == DoFirst \/ DoAgain \/ DoFree \/ DoReported \/ DoOther \/ DoFame \/ Finished
TVSpec == TVInit /\ [][TVNext]_vars
=============================================================================
