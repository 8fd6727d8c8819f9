------------------------------ MODULE CausalMC ------------------------------
(* A tiny backtester - positions open and close by the parity of prices -    *)
(* refines Causal; one that peeks at the next candle does not.               *)
EXTENDS Causal
CONSTANTS LEN, PEEK
VARIABLES hist
\* Positions are identified by the candles that opened and closed them.
RECURSIVE Walk(_, _, _, _)
Walk(h, i, open, closed) ==
  IF i > Len(h) THEN [cl |-> closed, op |-> IF open = 0 THEN <<>> ELSE <<<<open, open>>>>]
  ELSE LET signal == IF PEEK /\ i < Len(h) THEN h[i + 1] ELSE h[i]
       IN  IF open # 0 /\ signal = 0 THEN Walk(h, i + 1, 0, Append(closed, <<open, open, i, open * 100 + i>>))
           ELSE IF open = 0 /\ signal = 1 THEN Walk(h, i + 1, i, closed)
           ELSE Walk(h, i + 1, open, closed)
Run(h) == Walk(h, 1, 0, <<>>)
MCInit == Init /\ hist = <<>>
First == done = <<>> /\ Extend(0, <<>>, <<>>) /\ UNCHANGED hist
Reveal == done # <<>> /\ Len(hist) < LEN /\ \E x \in {0, 1} :
            hist' = Append(hist, x) /\ LET b == Run(hist') IN Extend(Len(hist'), b.cl, b.op)
Again == done # <<>> /\ LET b == Run(hist) IN Repeat(b.cl, b.op) /\ UNCHANGED hist
MCNext == First \/ Reveal \/ Again
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>
\* Whatever comes next, what the backtester then says extends what it said before.
AllRevealed == done # <<>> /\ Len(hist) < LEN =>
  \A x \in {0, 1} : LET b == Run(Append(hist, x)) IN ENABLED Extend(Len(hist) + 1, b.cl, b.op)
=============================================================================
