------------------------------ MODULE ClientMC ------------------------------
(* Several calls through one client over shared connections: an answer is     *)
(* matched with the call whose connection it comes in on.  SHARE = "fifo"     *)
(* matches answers with calls in the order of asking instead, which breaks.   *)
EXTENDS Client
CONSTANTS REQS, SHARE, KINDS
VARIABLES order, wire, got
vars == <<cvars, order, wire, got>>
MInit == CInit(REQS) /\ order = <<>> /\ wire = {} /\ got = [q \in REQS |-> <<>>]
DoAsk == \E q \in REQS : Ask(q) /\ order' = Append(order, q) /\ UNCHANGED <<wire, got>>
DoRequest == \E q \in REQS : seen[q] = 0 /\ Request(q, Path("info"), "info") /\ UNCHANGED <<order, wire, got>>
DoAnswer == \E q \in REQS, k \in KINDS : ans[q] = "none" /\ Answer(q, k) /\ wire' = wire \cup {<<q, k>>} /\ UNCHANGED <<order, got>>
\* The client takes a finished answer off the wire and hands it to a caller.
Waiting == SelectSeq(order, LAMBDA q : got[q] = <<>>)
DoTake == \E a \in wire : LET to == IF SHARE = "own" THEN a[1] ELSE Waiting[1] IN
  got' = [got EXCEPT ![to] = a] /\ wire' = wire \ {a} /\ UNCHANGED <<cvars, order>>
DoReturn == \E q \in REQS : got[q] # <<>> /\ (\E res \in Outcome(got[q][2]) : Return(q, res)) /\ UNCHANGED <<order, wire, got>>
Blocked == \A q \in REQS : st[q] \notin {"idle", "open"}
Done == Blocked /\ UNCHANGED vars
MNext == DoAsk \/ DoRequest \/ DoAnswer \/ DoTake \/ DoReturn \/ Done
MSpec == MInit /\ [][MNext]_vars /\ WF_vars(DoAsk \/ DoRequest \/ DoAnswer \/ DoTake \/ DoReturn)
Own == \A q \in REQS : got[q] # <<>> => got[q][1] = q
NoInvented == \A q \in REQS : st[q] = "ok" => ans[q] = "ok"
Told == \A q \in REQS : st[q] = "api" => ans[q] \in {"api", "apitext"}
AllReturn == <>Blocked
=============================================================================
