------------------------------ MODULE BufferMC ------------------------------
(* All candle streams with gaps up to LEN time units, buckets of SIZE.        *)
EXTENDS Buffer, FiniteSets, TLC
CONSTANTS LEN, SIZE, VALS
VARIABLES t, hist, emitted, stuck
vars == <<cur, out, t, hist, emitted, stuck>>
B(s) == s - (s % SIZE)
MCInit == Init /\ t = 0 /\ hist = <<>> /\ emitted = <<>> /\ stuck = FALSE
Candle(p, w) == [o |-> p, h |-> Max2(p, w), l |-> Min2(p, w), c |-> w, v |-> 1]
Skip == t < LEN /\ ~stuck /\ t' = t + 1 /\ UNCHANGED <<cur, out, hist, emitted, stuck>>
Feed == \E p, w \in VALS : LET x == Candle(p, w) last == (t + 1) % SIZE = 0 IN
  /\ t < LEN /\ ~stuck /\ t' = t + 1
  /\ IF Refused(B(t), last) THEN stuck' = TRUE /\ UNCHANGED <<cur, out, hist, emitted>>
     ELSE /\ Step(B(t), x, last)
          /\ hist' = Append(hist, [t |-> t, x |-> x])
          /\ emitted' = IF ~out'.on THEN emitted ELSE Append(emitted, out')
          /\ stuck' = FALSE
Next == Skip \/ Feed
MCSpec == MCInit /\ [][Next]_vars
In(b) == {i \in DOMAIN hist : B(hist[i].t) = b}
First(S) == CHOOSE i \in S : \A j \in S : i <= j
Last(S) == CHOOSE i \in S : \A j \in S : j <= i
Agg(b) == LET S == In(b) IN
  [on |-> TRUE, b |-> b, o |-> hist[First(S)].x.o, c |-> hist[Last(S)].x.c, v |-> Cardinality(S),
   h |-> CHOOSE m \in {hist[i].x.h : i \in S} : \A i \in S : hist[i].x.h <= m,
   l |-> CHOOSE m \in {hist[i].x.l : i \in S} : \A i \in S : hist[i].x.l >= m]
\* Everything emitted is exactly the aggregate of its bucket's candles, once, in order.
Exact == \A i \in DOMAIN emitted : emitted[i] = Agg(emitted[i].b)
Ordered == \A i, j \in DOMAIN emitted : i < j => emitted[i].b < emitted[j].b
\* Nothing is lost: each past bucket that had candles was emitted or is pending.
Complete == \A b \in {B(hist[i].t) : i \in DOMAIN hist} :
  (\E i \in DOMAIN emitted : emitted[i].b = b) \/ (cur.on /\ cur = Agg(b))
Prompt == \A i \in DOMAIN hist : (hist[i].t + 1) % SIZE = 0 => \E k \in DOMAIN emitted : emitted[k].b = B(hist[i].t)
=============================================================================
