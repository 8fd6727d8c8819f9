------------------------------ MODULE TradeGen ------------------------------
(* Scenarios for the real trader: every candle sequence of LEN candles over  *)
(* PRICES for each configuration of the design model.  A candle is [close,   *)
(* liq, gap]: liq = 1 shapes it so that the steering strategy liquidates.    *)
EXTENDS TradeMC, Json

VARIABLE hist
GenInit == MCInit /\ hist = <<>>
Last == IF hist = <<>> THEN 0 ELSE hist[Len(hist)][1]
GenNext ==
  /\ Len(hist) < LEN
  /\ \E p \in PRICES, q \in {0, 1}, g \in GAPS :
       /\ q = 1 => p # Last /\ hist # <<>>
       /\ g # 0 => (Len(hist) = 2)
       /\ hist' = Append(hist, <<p, q, g>>)
  /\ UNCHANGED <<vars, n>>
GenSpec == GenInit /\ [][GenNext]_<<vars, n, hist>>
Emit == Len(hist) = LEN => PrintT("SCN " \o ToJson([cfg |-> cfg, cs |-> hist]))
=============================================================================
