------------------------------ MODULE ClientTV ------------------------------
(* Recorded calls of the real client against a scripted service.              *)
(* cfg.calls[q] = [op, want]: want is the value the service serves.           *)
EXTENDS Client, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, l
vars == <<cvars, r, l>>
Ev == Runs[r].ev
e == Ev[l]
Is(x) == l <= Len(Ev) /\ e.e = x
Step == l' = l + 1 /\ r' = r
C == Runs[r].cfg.calls
TVInit == r \in DOMAIN Runs /\ l = 1 /\ CInit(DOMAIN Runs[r].cfg.calls)
DoAsk == Is("ask") /\ Ask(e.q) /\ Step
\* e.same: the body of the request says exactly what was asked for.
DoRequest == Is("request") /\ e.method = "POST" /\ e.same /\ Request(e.q, e.path, C[e.q].op) /\ Step
DoAnswer == Is("answer") /\ Answer(e.q, e.k) /\ Step
DoReturn == /\ Is("return") /\ Return(e.q, e.kind) /\ Step
            /\ (e.kind = "ok" => e.value = C[e.q].want) = TRUE
            /\ (e.kind = "api" => e.status = C[e.q].status /\ e.path = Path(C[e.q].op)) = TRUE
            /\ (e.kind = "api" /\ ans[e.q] = "api" => e.message = C[e.q].message /\ e.told) = TRUE
Finished == l > Len(Ev) /\ UNCHANGED vars
TVNext == DoAsk \/ DoRequest \/ DoAnswer \/ DoReturn \/ Finished
TVSpec == TVInit /\ [][TVNext]_vars
Settled == l <= Len(Ev) \/ \A q \in DOMAIN st : st[q] \notin {"idle", "open"}
=============================================================================
