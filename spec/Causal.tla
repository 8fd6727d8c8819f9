------------------------------- MODULE Causal -------------------------------
(* Histories only grow.  What a backtest has closed by the end of a prefix   *)
(* of the data is fixed for good; the position cut off by the end of the     *)
(* data (at most one) is the only thing a longer history may revise.         *)
(*                                                                           *)
(* done[k] is what is closed within the first k candles; the environment     *)
(* reveals candles one by one, asks again, or replaces the future.           *)
EXTENDS Integers, Sequences, SequencesExt, TLC

\* A closed position is <<opening, opening time, closing time, everything>>, a cut-off one <<opening, opening time>>.
VARIABLES done,    \* done[k + 1]: positions closed within the first k candles
          cut      \* the position that was cut off at the end, if any (0 or 1)

vars == <<done, cut>>
Init == done = <<>> /\ cut = <<>>
Known == Len(done) - 1            \* length of the longest history seen

Opening(p) == <<p[1], p[2]>>
\* One more candle, which ends at `t`: everything closed before stays closed, unchanged; a position
\* that was cut off either goes on or is the one which closes now; a new one opens now.
Extend(t, closed, open) ==
  /\ Len(open) <= 1
  /\ IF done = <<>> THEN closed = <<>> /\ open = <<>>
     ELSE LET was == done[Len(done)] IN
          /\ IsPrefix(was, closed)
          /\ Len(closed) <= Len(was) + 1
          /\ Len(closed) = Len(was) + 1 =>
               cut # <<>> /\ Opening(closed[Len(closed)]) = cut[1] /\ closed[Len(closed)][3] = t
          /\ (cut # <<>> /\ closed = was) => open = cut
          /\ (open # <<>> /\ open # cut) => open[1][2] = t
  /\ done' = Append(done, closed)
  /\ cut' = open

\* The same data give the same answer.
Repeat(closed, open) == closed = done[Len(done)] /\ open = cut /\ UNCHANGED vars

\* Other candles after the k-th one leave what was closed by then alone.
Alter(k, closed) == closed = done[k + 1] /\ UNCHANGED vars

Monotone == \A i, j \in DOMAIN done : i <= j => IsPrefix(done[i], done[j])
=============================================================================
