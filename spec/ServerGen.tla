----------------------------- MODULE ServerGen -----------------------------
(* Schedules for the real server: every order in which the service answers    *)
(* the K calls of each of REQS requests, with up to BAD faults and up to OUT  *)
(* outages of the service anywhere.                                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS REQS, K, BAD, OUT
VARIABLES steps, todo, bad, out, down
vars == <<steps, todo, bad, out, down>>
\* todo[q]: the calls not answered yet, {} before the request.
Init == steps = <<>> /\ todo = [q \in REQS |-> {0}] /\ bad = 0 /\ out = 0 /\ down = FALSE
Put(x) == steps' = Append(steps, x)
Ask(q) == /\ todo[q] = {0} /\ (\A p \in REQS : p < q => todo[p] # {0})
          /\ todo' = [todo EXCEPT ![q] = 1..K] /\ Put(<<"ask", q, 0, "">>) /\ UNCHANGED <<bad, out, down>>
Ans(q, c, k) == /\ c > 0 /\ c \in todo[q] /\ ~down /\ (k = "bad" => bad < BAD)
                /\ todo' = [todo EXCEPT ![q] = @ \ {c}] /\ bad' = (IF k = "bad" THEN bad + 1 ELSE bad)
                /\ Put(<<"ans", q, c, k>>) /\ UNCHANGED <<out, down>>
Down == ~down /\ out < OUT /\ out' = out + 1 /\ down' = TRUE /\ Put(<<"down", 0, 0, "">>) /\ UNCHANGED <<todo, bad>>
Up == down /\ down' = FALSE /\ Put(<<"up", 0, 0, "">>) /\ UNCHANGED <<todo, bad, out>>
Next == \/ \E q \in REQS : Ask(q)
        \/ \E q \in REQS, c \in 1..K, k \in {"ok", "bad"} : Ans(q, c, k)
        \/ Down \/ Up
Spec == Init /\ [][Next]_vars
Done == ~down /\ \A q \in REQS : todo[q] = {}
Emit == Done => PrintT("SCN " \o ToJson(steps))
=============================================================================
