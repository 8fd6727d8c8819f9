------------------------------ MODULE TradeMC ------------------------------
(* Bounded exhaustive model of the trading loop: all price paths and advice  *)
(* sequences of LEN candles over PRICES, for each configuration in CFGS.     *)
EXTENDS Trade, FiniteSets

CONSTANTS LEN, PRICES, GAPS

NoExit == [k |-> "noop", u |-> 0, v |-> 0, x |-> 0, y |-> 0, d |-> 4, trail |-> 0]
Base == [exact |-> 1, pd |-> 1, sd |-> 4, qu |-> 1, bu |-> 1, tn |-> 1, td |-> 8, rn |-> 1, rd |-> 4,
         ii |-> 2, is |-> 1, lim |-> 1000, mm |-> 2, q0 |-> 40, qf |-> 0, st |-> 2, mn |-> 2, mx |-> 0,
         long |-> 1, short |-> 1, dt |-> 1, sl |-> NoExit, tp |-> NoExit]
Basic(n) == [NoExit EXCEPT !.k = "basic", !.u = n, !.v = n]
Trail(n) == [NoExit EXCEPT !.k = "trail", !.x = n, !.y = n]
CFGS == {
  Base,
  [Base EXCEPT !.sl = Basic(2), !.tp = Basic(2)],
  [Base EXCEPT !.sl = Trail(1), !.tp = [Basic(4) EXCEPT !.k = "legacy"]],
  [Base EXCEPT !.sl = [NoExit EXCEPT !.k = "both", !.u = 2, !.v = 2, !.x = 1, !.y = 1], !.lim = 6, !.mm = 3],
  [Base EXCEPT !.sl = [NoExit EXCEPT !.k = "legacy", !.u = 1, !.trail = 1], !.q0 = 6, !.mn = 4],
  [Base EXCEPT !.q0 = 3, !.qf = 3, !.mn = 4, !.td = 2],
  [Base EXCEPT !.short = 0, !.mx = 5], [Base EXCEPT !.long = 0, !.ii = 1] }

VARIABLE n
MCInit == n = 0 /\ \E c \in CFGS : InitWith(c)

DoArrive == n < LEN /\ n' = n + 1
            /\ \E c \in PRICES, a \in 0..3, g \in GAPS : Arrive(now.t + 1 + g, c, a)
DoExitStrategy == n' = n /\ phase = "exit" /\ pos # Flat /\ \E f \in CloseFills(pos, now.c) : ExitStrategy(f)
DoExitStop == n' = n /\ phase = "exit" /\ pos # Flat /\ \E f \in CloseFills(pos, now.c) : ExitStop(f)
DoExitTake == n' = n /\ phase = "exit" /\ pos # Flat /\ \E f \in CloseFills(pos, now.c) : ExitTake(f)
DoHold == n' = n /\ Hold
DoNothingToExit == n' = n /\ NothingToExit
DoOpenLong == n' = n /\ phase = "enter" /\ pos = Flat /\ WantLong /\ \E f \in OpenLongFills(now.c) : OpenLong(f)
DoOpenShort == n' = n /\ phase = "enter" /\ pos = Flat /\ WantShort /\ \E f \in OpenShortFills(now.c) : OpenShort(f)
DoRefuse == n' = n /\ Refuse
DoStayOut == n' = n /\ StayOut
DoEnd == n' = n /\ n = LEN /\ EndOfData
Finished == phase = "done" /\ UNCHANGED <<vars, n>>

MCNext == \/ DoArrive \/ DoExitStrategy \/ DoExitStop \/ DoExitTake \/ DoHold \/ DoNothingToExit
          \/ DoOpenLong \/ DoOpenShort \/ DoRefuse \/ DoStayOut \/ DoEnd \/ Finished
MCSpec == MCInit /\ [][MCNext]_<<vars, n>>

\* Action properties.
OnlyOneStep == [][closed' \in {closed, closed + 1}]_<<vars, n>>
\* Opening needs an advice that is new on this very candle.
OpensAreFresh == [][(pos = Flat /\ pos' # Flat) =>
                      /\ fresh = chg /\ fresh # None
                      /\ (pos'.s = "L" <=> fresh = Long) /\ (pos'.s = "S" <=> fresh = Short)
                      /\ ~halted]_<<vars, n>>
\* The configuration never changes, refusal is final.
Constants == [][cfg' = cfg /\ (halted => halted')]_<<vars, n>>
\* Nothing is closed on the candle that opened it (except by the end of data).
NotSameCandle == [][(phase = "exit" /\ pos # Flat /\ pos' = Flat) => pos.ot < End]_<<vars, n>>
\* A balance changes only by opening and closing.
CashMoves == [][cash' # cash => pos' # pos]_<<vars, n>>
=============================================================================
