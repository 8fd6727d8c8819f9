------------------------------- MODULE Client -------------------------------
(* The data service's client between its callers and the service.  A call is  *)
(* one operation with its arguments; the service sees a request for exactly   *)
(* that, answers it in its own time, and the caller gets what was answered to *)
(* its own call: the value, or the service's complaint, or another error.     *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES st, seen, ans
cvars == <<st, seen, ans>>
Path(op) == CASE op = "info" -> "/exchange_info" [] op = "candles" -> "/candles" [] op = "prices" -> "/prices"
              [] op = "filled" -> "/candles_fill_missing_with_none" [] op = "intervals" -> "/candle_intervals"
\* Answers: "ok" carries a value; "api" refuses with a message; the others are failures of all kinds.
Kind == {"ok", "api", "apitext", "server", "busy", "garbage", "shape", "null", "cut", "drop", "empty"}
CInit(Q) == st = [q \in Q |-> "idle"] /\ seen = [q \in Q |-> 0] /\ ans = [q \in Q |-> "none"]
Ask(q) == st[q] = "idle" /\ st' = [st EXCEPT ![q] = "open"] /\ UNCHANGED <<seen, ans>>
\* A request of a call that is open arrives (again, should the client repeat it before it was answered).
Request(q, path, op) == /\ st[q] = "open" /\ path = Path(op)
                        /\ seen' = [seen EXCEPT ![q] = 1] /\ UNCHANGED <<st, ans>>
Answer(q, k) == /\ st[q] = "open" /\ seen[q] = 1 /\ k \in Kind
                /\ ans' = [ans EXCEPT ![q] = k] /\ UNCHANGED <<st, seen>>
\* What the caller gets: res is the kind of outcome.
Outcome(k) == CASE k = "ok" -> {"ok"} [] k = "api" -> {"api"} [] k = "apitext" -> {"api", "error"}
                [] k = "none" -> {} [] OTHER -> {"error"}
Return(q, res) == /\ st[q] = "open" /\ res \in Outcome(ans[q])
                  /\ st' = [st EXCEPT ![q] = res] /\ UNCHANGED <<seen, ans>>
=============================================================================
