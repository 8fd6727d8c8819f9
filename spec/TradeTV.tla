------------------------------ MODULE TradeTV ------------------------------
(* Trace validation of the trading loop.  Each run of the trace file holds a *)
(* configuration and one event per candle; every behaviour of this module    *)
(* follows one run, taking the micro-steps of module Trade for every event.  *)
(* A run that the specification does not allow gets stuck: TLC reports a     *)
(* deadlock whose last state names the run (r) and the event (l).            *)
EXTENDS Trade, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES r, l

Ev == Runs[r].ev
e == Ev[l]
More == l <= Len(Ev)

TVInit == r \in DOMAIN Runs /\ l = 1 /\ InitWith(Runs[r].cfg)

OpenF(x) == [os |-> x.os, oq |-> x.oq, of |-> x.of, col |-> x.col, bor |-> x.bor]
CloseF(x) == [cs |-> x.cs, cq |-> x.cq, cf |-> x.cf]
SamePos(p, x) ==
  /\ p.s = x.s /\ p.ot = x.ot /\ p.op = x.op /\ p.os = x.os /\ p.oq = x.oq /\ p.of = x.of
  /\ p.col = x.col /\ p.bor = x.bor

\* Structure every other aspect relies on.
Sane ==
  /\ e.e = "c" /\ e.ok
  /\ Len(e.cl) <= 1 /\ Len(e.op) <= 1
  /\ e.n = closed + Len(e.cl)
  /\ Len(e.cl) = 1 => pos # Flat /\ SamePos(pos, e.cl[1])
  /\ (pos # Flat /\ Len(e.cl) = 0) => Len(e.op) = 1 /\ SamePos(pos, e.op[1])
Usable == e.e = "c" /\ ("life" \in ASPECTS \/ Sane)

\* Reported cost, gain and profit of a position p closed with fills f.
Reported(p, f, x) ==
  Chk(MoneyAspect(p), x.cost = Cost(p) /\ x.gain = Gain(p, f) /\ x.pr = Profit(p, f)
                      /\ x.bg = BaseGain(p) /\ x.bc = BaseCost(p, f))
Timed(p, x) == Chk("life", x.ct = End /\ x.cp = now.c /\ x.dur = End - p.ot)

DoArrive ==
  /\ More /\ phase = "arrive" /\ Usable
  /\ Arrive(e.t, e.c, e.a)
  /\ UNCHANGED <<r, l>>

\* Without any say on exits a position may be closed for whatever reason.
Reasons == {"exit", "stop", "take"} \cap ASPECTS # {}
DoClose(why, f(_)) ==
  /\ More /\ phase = "exit" /\ pos # Flat /\ Len(e.cl) = 1
  /\ LET x == e.cl[1]
     IN  /\ Chk("life", SamePos(pos, x) /\ Len(e.cl) = 1 /\ x.why # "cancel" /\ pos.ot < End)
         /\ (Reasons => x.why = why)
         /\ Timed(pos, x) /\ Reported(pos, CloseF(x), x)
         /\ f(CloseF(x))
  /\ UNCHANGED <<r, l>>
DoExitStrategy == DoClose("strategy", ExitStrategy)
DoExitStop == Reasons /\ DoClose("stop", ExitStop)
DoExitTake == Reasons /\ DoClose("take", ExitTake)

DoHold == More /\ phase = "exit" /\ e.cl = <<>> /\ Hold /\ UNCHANGED <<r, l>>
DoNothingToExit == More /\ phase = "exit" /\ e.cl = <<>> /\ NothingToExit /\ UNCHANGED <<r, l>>

\* What would be reported if the data ended with this candle.
Cancels ==
  IF pos' = Flat THEN e.op = <<>>
  ELSE /\ Len(e.op) = 1
       /\ LET x == e.op[1]
          IN  /\ SamePos(pos', x)
              /\ Timed(pos', x) /\ Chk("life", x.why = "cancel")
              /\ Chk(MoneyAspect(pos'), CloseF(x) \in CloseFills(pos', now.c))
              /\ Reported(pos', CloseF(x), x)
EndOfCandle ==
  /\ Cancels
  /\ Chk("life", e.n = closed /\ e.ok /\ e.st = Ev[1].t /\ e.en = End /\ e.q = cfg.q0)
  /\ l' = l + 1 /\ r' = r

New == e.op[1]
DoOpenLong ==
  /\ More /\ phase = "enter" /\ pos = Flat /\ Len(e.op) = 1 /\ New.s = "L"
  /\ Chk("life", New.ot = End /\ New.op = now.c)
  /\ OpenLong(OpenF(New)) /\ EndOfCandle
DoOpenShort ==
  /\ More /\ phase = "enter" /\ pos = Flat /\ Len(e.op) = 1 /\ New.s = "S"
  /\ Chk("life", New.ot = End /\ New.op = now.c)
  /\ OpenShort(OpenF(New)) /\ EndOfCandle
DoRefuse == More /\ phase = "enter" /\ e.op = <<>> /\ Refuse /\ EndOfCandle
DoStayOut == More /\ phase = "enter" /\ StayOut /\ EndOfCandle

\* Structural disorder is the business of the "life" aspect alone.
SkipDisorder ==
  /\ More /\ e.e = "c" /\ phase = "arrive" /\ ~Usable
  /\ l' = Len(Ev) + 1 /\ UNCHANGED <<vars, r>>
Finished == l > Len(Ev) /\ UNCHANGED <<vars, r, l>>

TVNext ==
  \/ DoArrive \/ DoExitStrategy \/ DoExitStop \/ DoExitTake \/ DoHold \/ DoNothingToExit
  \/ DoOpenLong \/ DoOpenShort \/ DoRefuse \/ DoStayOut \/ SkipDisorder \/ Finished
TVSpec == TVInit /\ [][TVNext]_<<vars, r, l>>
=============================================================================
