------------------------------ MODULE ExitLoop ------------------------------
(* Life of a stop loss and a take profit object: every candle updates both;  *)
(* while no position is open the trader re-arms (clears) them, so the last   *)
(* clearing candle is the entry.  Judged in between are the four questions   *)
(* the trader may ask: is the long / short side of either hit?               *)
EXTENDS Exits, Sequences, TLC

CONSTANT ASPECTS    \* subset of {"stop", "take"}
Chk(a, cond) == (a \in ASPECTS) => cond

VARIABLES cfg, step, armed, c, ref, hi, lo, prog, entryProg
vars == <<cfg, step, armed, c, ref, hi, lo, prog, entryProg>>

Ex == cfg.exact = 1
ONE == 10000            \* denominator of the trend strength's progress

\* Threshold interpolated between t1 (progress 1) and t2 (progress 0), over d * ONE.
Lerp(t1, t2) ==
  LET p == IF cfg.tp.lock = 1 THEN entryProg ELSE prog
  IN  p * t1 + (ONE - p) * t2
\* The progress is logged rounded to 1/ONE: near a boundary both answers are possible.
NearGeq(a, b, eps) == IF Abs(a - b) <= eps THEN BOOLEAN ELSE {a >= b}
TrendLong ==
  LET s == cfg.tp IN NearGeq(c * s.d * ONE, ref * (s.d * ONE + Lerp(s.u, s.x)), ref * (Abs(s.u - s.x) + 1))
TrendShort ==
  LET s == cfg.tp IN NearGeq(ref * (s.d * ONE - Lerp(s.v, s.y)), c * s.d * ONE, ref * (Abs(s.v - s.y) + 1))

StopUp   == StopLong(cfg.sl, c, ref, hi, Ex)
StopDown == StopShort(cfg.sl, c, ref, lo, Ex)
TakeUp   == IF cfg.tp.k = "trend" THEN TrendLong ELSE TakeLong(cfg.tp, c, ref, Ex)
TakeDown == IF cfg.tp.k = "trend" THEN TrendShort ELSE TakeShort(cfg.tp, c, ref, Ex)

InitWith(x) ==
  /\ cfg = x /\ step = "update" /\ armed = FALSE
  /\ c = 0 /\ ref = 0 /\ hi = 0 /\ lo = 0 /\ prog = 0 /\ entryProg = 0

Update(close, p) ==
  /\ step = "update" /\ step' = "ask"
  /\ c' = close /\ prog' = p
  /\ hi' = Max2(hi, close) /\ lo' = Min2(lo, close)
  /\ UNCHANGED <<cfg, armed, ref, entryProg>>

\* Answers given to the trader; only meaningful once armed.
Ask(su, sd, tu, td) ==
  /\ step = "ask" /\ step' = "decide"
  /\ armed => /\ Chk("stop", su \in StopUp /\ sd \in StopDown)
              /\ Chk("take", tu \in TakeUp /\ td \in TakeDown)
  /\ UNCHANGED <<cfg, armed, c, ref, hi, lo, prog, entryProg>>

\* No position: (re-)arm at this close, forgetting everything before.
Rearm ==
  /\ step = "decide" /\ step' = "update"
  /\ armed' = TRUE /\ ref' = c /\ hi' = c /\ lo' = c /\ entryProg' = prog
  /\ UNCHANGED <<cfg, c, prog>>

\* A position stays open.
Keep ==
  /\ step = "decide" /\ armed /\ step' = "update"
  /\ UNCHANGED <<cfg, armed, c, ref, hi, lo, prog, entryProg>>

Bracket == armed => lo <= ref /\ ref <= hi /\ lo <= c /\ c <= hi
\* Rules relate to each other: the combined stop is hit whenever one of its parts is,
\* a trailing stop whenever the basic one with the same threshold is.
BothIsEither == (armed /\ step = "ask" /\ cfg.sl.k = "both" /\ Ex) =>
  /\ (TRUE \in StopUp) = (TRUE \in FellBy(c, ref, cfg.sl.u, cfg.sl.d, Ex) \/ TRUE \in FellBy(c, hi, cfg.sl.x, cfg.sl.d, Ex))
TrailDominatesBasic == (armed /\ step = "ask" /\ cfg.sl.k = "trail" /\ Ex) =>
  /\ FellBy(c, ref, cfg.sl.x, cfg.sl.d, TRUE) = {TRUE} => StopUp = {TRUE}
  /\ RoseBy(c, ref, cfg.sl.y, cfg.sl.d, TRUE) = {TRUE} => StopDown = {TRUE}
NeverBothSides == (armed /\ step = "ask" /\ Ex /\ cfg.tp.k # "trend") => ~(TakeUp = {TRUE} /\ TakeDown = {TRUE})
=============================================================================
