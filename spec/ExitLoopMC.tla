----------------------------- MODULE ExitLoopMC -----------------------------
EXTENDS ExitLoop
CONSTANTS PRICES, PROGS
E(k, n, m, t) == [k |-> k, u |-> n, v |-> n, x |-> m, y |-> m, d |-> 4, trail |-> t, lock |-> t]
SLs == {E("noop", 0, 0, 0), E("basic", 1, 0, 0), E("trail", 0, 1, 0), E("both", 2, 1, 0),
        E("legacy", 2, 0, 0), E("legacy", 2, 0, 1), E("legacy", 0, 0, 1)}
TPs == {E("noop", 0, 0, 0), E("basic", 2, 0, 0), E("legacy", 1, 0, 0), E("legacy", 0, 0, 0),
        E("trend", 1, 3, 0), E("trend", 1, 3, 1)}
MCInit == \E s \in SLs, t \in TPs : InitWith([exact |-> 1, sl |-> s, tp |-> t])
DoUpdate == \E p \in PRICES, g \in PROGS : Update(p, g)
DoAsk == step = "ask" /\ IF armed THEN \E su \in StopUp, sd \in StopDown, tu \in TakeUp, td \in TakeDown : Ask(su, sd, tu, td)
         ELSE Ask(FALSE, FALSE, FALSE, FALSE)
MCNext == DoUpdate \/ DoAsk \/ Rearm \/ Keep
MCSpec == MCInit /\ [][MCNext]_vars
\* The past is forgotten when (re-)armed.
Forgets == [][(step = "decide" /\ step' = "update" /\ ref' # ref) => hi' = c /\ lo' = c]_vars
Noop == (cfg.sl.k = "noop" \/ (cfg.sl.k = "legacy" /\ cfg.sl.u = 0)) => StopUp = {FALSE} /\ StopDown = {FALSE}
=============================================================================
