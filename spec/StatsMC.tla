------------------------------ MODULE StatsMC ------------------------------
(* The running account against direct definitions over all small histories.   *)
EXTENDS Stats, TLC, FiniteSets
CONSTANTS LEN, Q0, MOVES
VARIABLES f, ps, day
vars == <<f, ps, day>>
Whys == {"strategy", "stop", "take", "cancel"}
Pos(d, x, w) == [s |-> "L", ot |-> 24 * day, oq |-> 4, os |-> 4, of |-> 0, ct |-> 24 * (day + d), cq |-> 4 + x, cs |-> 4,
                 cf |-> 0, col |-> 0, bor |-> 0, why |-> w]
Flip(d, x, w) == [s |-> "S", ot |-> 24 * day, oq |-> 4 + x, os |-> 4, of |-> 0, ct |-> 24 * (day + d), cq |-> 4, cs |-> 4,
                  cf |-> 0, col |-> 8, bor |-> 4, why |-> w]
Init == f = Fold0(Q0) /\ ps = <<>> /\ day = 0
Add == /\ Len(ps) < LEN
       /\ \E d \in {0, 1}, m \in MOVES, w \in {"stop", "take", "strategy"}, short \in BOOLEAN :
            LET p == IF short THEN Flip(d, m - 4, w) ELSE Pos(d, m - 4, w) IN
            f' = Account(f, p) /\ ps' = Append(ps, p) /\ day' = day + d
Spec == Init /\ [][Add]_vars
Bal(i) == Q0 + SumSeq([j \in 1..i |-> Profit(ps[j])])
Top(i) == CHOOSE t \in {Bal(j) : j \in 0..i} : \A j \in 0..i : Bal(j) <= t
Counts == f.n = Len(ps) /\ f.won + f.lost = f.n /\ f.stops + f.takes <= f.n
          /\ f.stops = Cardinality({i \in DOMAIN ps : ps[i].why = "stop"})
Balance == f.bal = Bal(Len(ps)) /\ f.top = Top(Len(ps))
\* The reported drawdown is reached somewhere and exceeded nowhere.
Worst == /\ \E i \in 0..Len(ps) : (f.ddt - f.ddq) * Top(i) = (Top(i) - Bal(i)) * f.ddt
         /\ \A i \in 0..Len(ps) : (f.ddt - f.ddq) * Top(i) >= (Top(i) - Bal(i)) * f.ddt
MeanBelowMax == f.n > 0 => f.dds \div f.n <= Drawdown(f.ddq, f.ddt)
Bounded == (\A i \in 0..Len(ps) : Bal(i) >= 0) => f.ddq >= 0
NoLossNoDrawdown == f.lost = 0 => f.ddq = f.ddt
C == [q0 |-> Q0, start |-> 0, end |-> 24 * (day + 1), qp |-> [i \in 1..(day + 2) |-> 1], bp |-> [i \in 1..(day + 2) |-> 1]]
\* Directly: what is held on day d is what everything opened and closed by then moved.
RECURSIVE SumOf(_, _)
SumOf(g(_), S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN g(x) + SumOf(g, S \ {x})
OpenBy(d) == {i \in DOMAIN ps : Day(ps[i].ot) <= d}
ClosedBy(d) == {i \in DOMAIN ps : Day(ps[i].ct) <= d}
QuoteHeld(d) == Q0 + SumOf(LAMBDA i : Gain(ps[i]), ClosedBy(d)) - SumOf(LAMBDA i : Cost(ps[i]), OpenBy(d))
BaseHeld(d) == SumOf(LAMBDA i : BaseGain(ps[i]), OpenBy(d)) - SumOf(LAMBDA i : BaseCost(ps[i]), ClosedBy(d))
DayByDay == LET perf == Performance([C EXCEPT !.qp = [i \in DOMAIN @ |-> 2], !.bp = [i \in DOMAIN @ |-> i]], ps) IN
  \A i \in 2..Len(perf) : perf[i] = 2 * QuoteHeld(i - 2) + i * BaseHeld(i - 2)
\* When everything is closed and prices stand still, the portfolio is worth its balance.
MarkedRight == LET perf == Performance(C, ps) IN Len(perf) = day + 2 /\ perf[Len(perf)] = f.bal + BaseHeld(day)
=============================================================================
