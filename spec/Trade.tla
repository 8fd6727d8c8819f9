------------------------------- MODULE Trade -------------------------------
(* The trading loop: one candle at a time, at most one open position.        *)
(*                                                                           *)
(* A candle is processed in three steps, like the implementation's tick:     *)
(*   Arrive   - the candle and the strategy's advice become known,           *)
(*   exits    - ExitStrategy / ExitStop / ExitTake / Hold / NothingToExit,   *)
(*   entries  - OpenLong / OpenShort / Refuse / StayOut.                     *)
(* EndOfData cancels what is still open.                                     *)
(*                                                                           *)
(* All quantities are integers on the grids of the configuration record cfg: *)
(*   prices 1/pd, sizes 1/sd, quote amounts 1/qu, base fees 1/bu,            *)
(*   tn/td taker fee, rn/rd interest rate per ii/is time units, lim borrow   *)
(*   limit, mm margin multiplier, st/mn/mx size step, minimum, maximum       *)
(*   (0: unlimited), dt candle interval, long/short permissions, sl/tp.      *)
(*                                                                           *)
(* ASPECTS selects which groups of guards bind: with all of them this is the *)
(* design; trace validation binds those a property talks about and adopts    *)
(* the logged values for the others.                                         *)
EXTENDS Exits, Sequences, TLC

CONSTANT ASPECTS
Chk(a, cond) == (a \in ASPECTS) => cond

VARIABLES cfg,     \* configuration, constant during a run
          phase,   \* "arrive", "exit", "enter", "done"
          now,     \* current candle [t, c]
          chg,     \* last advice that was passed on
          fresh,   \* advice passed on this candle, 0 if none
          cash,    \* quote not bound in a long position
          pos,     \* open position, or Flat
          hi, lo,  \* highest and lowest close since entry
          halted,  \* an entry was refused: trading is over
          closed   \* number of positions closed so far

vars == <<cfg, phase, now, chg, fresh, cash, pos, hi, lo, halted, closed>>

None == 0  Long == 1  Short == 2  Liquidate == 3

Flat == [s |-> "-"]
Ex == cfg.exact = 1
End == now.t + cfg.dt             \* positions change hands when the candle ends

-----------------------------------------------------------------------------
(* Sizes and money *)

\* Sizes the filter may turn the raw size num/den into (in units of 1/sd).
SizeDown(num, den) ==
  UNION { IF below THEN {0}
          ELSE LET over == cfg.mx > 0 /\ num > cfg.mx * den
                   n == IF over THEN cfg.mx ELSE num
                   d == IF over THEN 1 ELSE den
               IN  IF cfg.st > 0 THEN { k * cfg.st : k \in FloorSet(n, d * cfg.st, Ex) }
                   ELSE IF n % d = 0 THEN {n \div d} ELSE {}
        : below \in LessSet(num, cfg.mn * den, Ex) }

\* Besides whole units of 1/qu there may be qf quarters of one, which no trade touches.
Parts == IF cfg.qf = 0 THEN 1 ELSE 4
Affordable(price) == SizeDown((cash * Parts + cfg.qf) * cfg.pd * cfg.sd, Parts * cfg.qu * price)

Notional(price, size) == FloorSet(price * size * cfg.qu, cfg.pd * cfg.sd, Ex)
QuoteFee(quote) == RoundSet(quote * cfg.tn, cfg.td, Ex)

OpenLongFills(price) ==
  UNION { UNION { { [os |-> s, oq |-> q, of |-> f, col |-> 0, bor |-> 0]
                    : f \in RoundSet(s * cfg.tn * cfg.bu, cfg.sd * cfg.td, Ex) }
                : q \in Notional(price, s) }
        : s \in Affordable(price) \ {0} }

\* Only the size is on the grid 1/sd; the base fee lives on 1/bu.
CloseLongFills(p, price) ==
  UNION { UNION { { [cs |-> s, cq |-> q, cf |-> f] : f \in QuoteFee(q) }
                : q \in Notional(price, s) }
        : s \in SizeDown(p.os * cfg.bu - p.of * cfg.sd, cfg.bu) }

OpenShortFills(price) ==
  UNION { LET b == Min2(s * (cfg.mm - 1), cfg.lim)
          IN  UNION { { [os |-> b, oq |-> q, of |-> f, col |-> cash, bor |-> b]
                        : f \in QuoteFee(q) }
                    : q \in Notional(price, b) }
        : s \in Affordable(price) \ {0} }

Intervals(p) == CeilDiv((End - p.ot) * cfg.is, cfg.ii)
Interest(p) == RoundSet(p.bor * Intervals(p) * cfg.rn * cfg.bu, cfg.sd * cfg.rd, Ex)

\* The size bought back is on the common grid 1/(sd*bu).
CloseShortFills(p, price) ==
  UNION { LET owed == p.bor * cfg.bu + i * cfg.sd
          IN  UNION { LET size == owed + f * cfg.sd
                      IN  { [cs |-> size, cq |-> q, cf |-> f]
                            : q \in FloorSet(price * size * cfg.qu, cfg.pd * cfg.sd * cfg.bu, Ex) }
                    : f \in RoundSet(owed * cfg.tn, cfg.sd * cfg.td, Ex) }
        : i \in Interest(p) }

CloseFills(p, price) == IF p.s = "L" THEN CloseLongFills(p, price) ELSE CloseShortFills(p, price)
MoneyAspect(p) == IF p.s = "L" THEN "long" ELSE "short"

Profit(p, f) == IF p.s = "L" THEN f.cq - f.cf - p.oq ELSE p.oq - p.of - f.cq
Gain(p, f) == IF p.s = "L" THEN f.cq - f.cf ELSE p.oq - p.of + p.col - f.cq
Cost(p) == IF p.s = "L" THEN p.oq ELSE p.col
\* The base asset a position brings in while open and takes to close, in 1/(sd bu).
BaseGain(p) == IF p.s = "L" THEN p.os * cfg.bu - p.of * cfg.sd ELSE p.bor * cfg.bu
BaseCost(p, f) == IF p.s = "L" THEN f.cs * cfg.bu ELSE p.bor * cfg.bu
CashBack(p, f) == IF p.s = "L" THEN f.cq - f.cf ELSE -f.cq

-----------------------------------------------------------------------------
(* Signals *)

Opposed == \/ pos.s = "L" /\ fresh \in {Short, Liquidate}
           \/ pos.s = "S" /\ fresh \in {Long, Liquidate}
StopHit == IF pos.s = "L" THEN StopLong(cfg.sl, now.c, pos.op, hi, Ex)
                          ELSE StopShort(cfg.sl, now.c, pos.op, lo, Ex)
TakeHit == IF pos.s = "L" THEN TakeLong(cfg.tp, now.c, pos.op, Ex)
                          ELSE TakeShort(cfg.tp, now.c, pos.op, Ex)
WantLong  == fresh = Long /\ cfg.long = 1
WantShort == fresh = Short /\ cfg.short = 1

-----------------------------------------------------------------------------
InitWith(c) ==
  /\ cfg = c
  /\ phase = "arrive"
  /\ now = [t |-> -1, c |-> 0]
  /\ chg = None /\ fresh = None
  /\ cash = c.q0
  /\ pos = Flat /\ hi = 0 /\ lo = 0
  /\ halted = FALSE
  /\ closed = 0

Arrive(t, c, advice) ==
  /\ phase = "arrive"
  /\ phase' = "exit"
  /\ now' = [t |-> t, c |-> c]
  /\ LET new == advice # None /\ advice # chg
     IN  /\ fresh' = IF new THEN advice ELSE None
         /\ chg' = IF new THEN advice ELSE chg
  /\ hi' = Max2(hi, c) /\ lo' = Min2(lo, c)
  /\ UNCHANGED <<cfg, cash, pos, halted, closed>>

Close(f) ==
  /\ pos # Flat
  /\ Chk(MoneyAspect(pos), f \in CloseFills(pos, now.c))
  /\ cash' = cash + CashBack(pos, f)
  /\ pos' = Flat
  /\ closed' = closed + 1
  /\ phase' = "enter"
  /\ UNCHANGED <<cfg, now, chg, fresh, hi, lo, halted>>

ExitStrategy(f) == phase = "exit" /\ pos # Flat /\ Chk("exit", Opposed) /\ Close(f)
ExitStop(f) == phase = "exit" /\ pos # Flat /\ Chk("exit", ~Opposed /\ TRUE \in StopHit) /\ Chk("stop", TRUE \in StopHit) /\ Close(f)
ExitTake(f) ==
  phase = "exit" /\ pos # Flat
  /\ Chk("exit", ~Opposed /\ FALSE \in StopHit /\ TRUE \in TakeHit)
  /\ Chk("take", TRUE \in TakeHit) /\ Close(f)

Hold ==
  /\ phase = "exit" /\ pos # Flat
  /\ Chk("exit", ~Opposed /\ FALSE \in StopHit /\ FALSE \in TakeHit)
  /\ Chk("stop", FALSE \in StopHit) /\ Chk("take", FALSE \in TakeHit)
  /\ phase' = "enter"
  /\ UNCHANGED <<cfg, now, chg, fresh, cash, pos, hi, lo, halted, closed>>

NothingToExit ==
  /\ phase = "exit" /\ pos = Flat
  /\ phase' = "enter"
  /\ UNCHANGED <<cfg, now, chg, fresh, cash, pos, hi, lo, halted, closed>>

Enter(side, f) ==
  /\ phase = "enter" /\ pos = Flat
  /\ Chk("size", ~halted)
  /\ pos' = [s |-> side, ot |-> End, op |-> now.c, os |-> f.os, oq |-> f.oq, of |-> f.of,
             col |-> f.col, bor |-> f.bor]
  /\ hi' = now.c /\ lo' = now.c
  /\ phase' = "arrive"
  /\ UNCHANGED <<cfg, now, chg, fresh, halted, closed>>

OpenLong(f) ==
  /\ Chk("entry", WantLong)
  /\ Chk("size", f.os \in Affordable(now.c) \ {0})
  /\ Chk("long", f.oq \in Notional(now.c, f.os)
                 /\ f.of \in RoundSet(f.os * cfg.tn * cfg.bu, cfg.sd * cfg.td, Ex)
                 /\ (closed = 0 \/ f.os \in Affordable(now.c)))     \* what was earned before is there to be spent
  /\ Enter("L", f)
  /\ cash' = cash - f.oq

OpenShort(f) ==
  /\ Chk("entry", WantShort)
  /\ Chk("size", \E s \in Affordable(now.c) : s # 0)
  /\ Chk("short", f \in OpenShortFills(now.c))
  /\ Chk("long", closed = 0 \/ f.col = cash)
  /\ Enter("S", f)
  /\ cash' = cash + f.oq - f.of

\* The balance cannot buy the minimum size: trading ends.
Refuse ==
  /\ phase = "enter" /\ pos = Flat /\ ~halted
  /\ WantLong \/ WantShort
  /\ IF {"entry", "size"} \cap ASPECTS # {} THEN 0 \in Affordable(now.c) ELSE TRUE
  /\ halted' = TRUE
  /\ phase' = "arrive"
  /\ UNCHANGED <<cfg, now, chg, fresh, cash, pos, hi, lo, closed>>

StayOut ==
  /\ phase = "enter"
  /\ (pos # Flat) \/ halted \/ ~(WantLong \/ WantShort)
  /\ phase' = "arrive"
  /\ UNCHANGED <<cfg, now, chg, fresh, cash, pos, hi, lo, halted, closed>>

EndOfData ==
  /\ phase = "arrive"
  /\ phase' = "done"
  /\ IF pos = Flat THEN UNCHANGED <<cash, pos, closed>>
     ELSE \E f \in CloseFills(pos, now.c) :
            cash' = cash + CashBack(pos, f) /\ pos' = Flat /\ closed' = closed + 1
  /\ UNCHANGED <<cfg, now, chg, fresh, hi, lo, halted>>

-----------------------------------------------------------------------------
(* Invariants of the design *)

TypeOK ==
  /\ phase \in {"arrive", "exit", "enter", "done"}
  /\ fresh \in 0..3 /\ chg \in 0..3 /\ cash \in Int /\ closed \in Nat
  /\ pos = Flat \/ pos.s \in {"L", "S"}
\* A fresh advice is always the prevailing one.
FreshIsPrevailing == fresh # None => fresh = chg
\* Longs are never bought on credit, and their base is worth what was paid.
LongFunded == pos # Flat /\ pos.s = "L" => cash >= 0 /\ pos.of >= 0
\* Extremes since entry bracket the entry price.
Extremes == pos # Flat => lo <= pos.op /\ pos.op <= hi
\* After this candle's exits no position contradicts the prevailing advice.
SideFollowsAdvice ==
  phase \in {"arrive", "done"} /\ pos # Flat =>
     \/ pos.s = "L" /\ chg = Long
     \/ pos.s = "S" /\ chg = Short
ShortBounded == pos # Flat /\ pos.s = "S" => pos.bor <= cfg.lim /\ pos.os = pos.bor
=============================================================================
