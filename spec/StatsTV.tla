------------------------------ MODULE StatsTV ------------------------------
(* Statistics of recorded summaries by the real code.  ASPECTS: core, opt.    *)
EXTENDS Stats, Json, IOUtils
CONSTANT ASPECTS
Chk(a, c) == (a \notin ASPECTS \/ c) = TRUE
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, l, f
vars == <<r, l, f>>
C == Runs[r].cfg
Ev == Runs[r].ev
e == Ev[l]
Is(x) == l <= Len(Ev) /\ e.e = x
Step == l' = l + 1 /\ r' = r
TVInit == r \in DOMAIN Runs /\ l = 1 /\ f = Fold0(C.q0)
\* The positions come first.
Positions == [i \in 1..f.n |-> Ev[i].p]
PositionOK(p, o) ==
  /\ o.type = p.s /\ o.ot = p.ot /\ o.ct = p.ct /\ o.dur = Duration(p) /\ o.why = p.why
  /\ o.cost = Cost(p) /\ o.gain = Gain(p) /\ o.profit = Profit(p)
  /\ Near(o.roi, Profit(p), Cost(p), 10000, 1)
  /\ Annualized(o.aroi, Profit(p), Cost(p), Duration(p))
DoPosition == /\ Is("pos") /\ l = f.n + 1 /\ Step /\ Chk("core", PositionOK(e.p, e.out))
              /\ f' = Account(f, e.p)
\* return / drawdown = (profit * top) / (cost * (top - balance)), scaled by 100
OverDrawdown(x) == IF f.ddt = f.ddq THEN x = 0
                   ELSE Near(x, Total(f) * f.ddt, f.cost * (f.ddt - f.ddq), 100, 1)
CoreOK ==
  /\ e.start = C.start /\ e.end = C.end /\ e.dur = C.end - C.start
  /\ e.cost = f.cost /\ e.profit = Total(f) /\ e.gain = f.bal
  /\ Near(e.roi, Total(f), f.cost, 10000, 1)
  /\ Annualized(e.aroi, Total(f), f.cost, C.end - C.start)
  /\ e.n = f.n /\ e.won = f.won /\ e.lost = f.lost /\ e.stops = f.stops /\ e.takes = f.takes
  /\ IF f.n = 0 THEN e.mprofit = 0 /\ e.mdur = 0 /\ e.mms = 0 /\ e.mdd = 0
     ELSE /\ Near(e.mprofit, Total(f), f.n, 10000, 1)
          /\ e.mdur = (f.time * 3600) \div f.n
          /\ e.mms = (((f.time * 3600) % f.n) * 1000) \div f.n
          /\ Abs(e.mdd - f.dds \div f.n) <= 2
  /\ Near(e.dd, f.ddt - f.ddq, f.ddt, DS, 1)
  /\ OverDrawdown(e.rodd)
DoCore == /\ Is("core") /\ Step /\ Chk("core", CoreOK)
          /\ Chk("opt", e.finite /\ e.oprofit = Total(f) /\ OverDrawdown(e.orodd) /\ e.agree)
          /\ UNCHANGED f
DoExtended == /\ Is("ext") /\ Step
              /\ LET perf == TLCEval(Performance(C, Positions)) IN
                 Chk("opt", e.finite /\ SharpeOK(e.sharpe, perf) /\ SortinoOK(e.sortino, perf)
                            /\ SharpeOK(e.osharpe, perf) /\ SortinoOK(e.osortino, perf)
                            /\ AnnualReturnOK(e.aret, perf)
                            /\ (e.agree \/ (~Ruined(perf) /\ Len(perf) > 2
                                            /\ (Deviation(Returns(perf)) < 50 \/ Len(Losing(perf)) < 2 \/ Deviation(Losing(perf)) < 50))))
              /\ UNCHANGED f
Finished == l > Len(Ev) /\ UNCHANGED vars
TVNext == DoPosition \/ DoCore \/ DoExtended \/ Finished
TVSpec == TVInit /\ [][TVNext]_vars
=============================================================================
