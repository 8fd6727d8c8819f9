------------------------------ MODULE Composed ------------------------------
(* Strategies composed of an inner signal, an optional oscillator, the       *)
(* mid-trend and the persistence filter, combined.                           *)
EXTENDS Advice

CONSTANT ASPECTS      \* subset of {"advice", "mature"}
Chk(a, cond) == (a \in ASPECTS) => cond

VARIABLES cfg, mid, pers, advice, t
vars == <<cfg, mid, pers, advice, t>>

Refuse(a, refused) == IF refused THEN Liquidate ELSE a
\* Screening by the oscillator: overbought / oversold.
Screen(a, ob, os) ==
  CASE cfg.osc = "none" -> a
    [] cfg.osc = "Enforce" -> IF a = Long THEN Refuse(a, ~os) ELSE IF a = Short THEN Refuse(a, ~ob) ELSE a
    [] cfg.osc = "Prevent" -> IF a = Long THEN Refuse(a, ob) ELSE IF a = Short THEN Refuse(a, os) ELSE a

InitWith(c) == cfg = c /\ mid = MidInit /\ pers = PersInit /\ advice = None /\ t = 0

\* The buffer holds the candle back: nothing moves.
Buffer == UNCHANGED vars
\* Inner parts still warming up.
Warm == t' = t + 1 /\ UNCHANGED <<cfg, mid, pers, advice>>
\* All inner parts are mature: a = inner advice.
Decide(a, ob, os) ==
  LET x == Screen(a, ob, os)
  IN  /\ advice' = Combine(MidOut(mid, x, cfg.policy), PersOut(pers, x, cfg.level, FALSE))
      /\ mid' = MidNext(mid, x, cfg.policy)
      /\ pers' = PersNext(pers, x, cfg.level)
      /\ t' = t + 1 /\ UNCHANGED cfg
=============================================================================
