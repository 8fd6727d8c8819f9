------------------------------- MODULE Buffer -------------------------------
(* Aggregation of candles into larger buckets.  A candle is                   *)
(* [o, h, l, c, v]; its bucket (start) and whether it ends its bucket are     *)
(* parameters of the step, given by the calendar.                             *)
EXTENDS Arith, Sequences
NoBucket == <<>>
Empty == [on |-> FALSE, b |-> NoBucket, o |-> 0, h |-> 0, l |-> 0, c |-> 0, v |-> 0]
Fresh(b, x) == [on |-> TRUE, b |-> b, o |-> x.o, h |-> x.h, l |-> x.l, c |-> x.c, v |-> x.v]
Absorb(cur, x) == [cur EXCEPT !.h = Max2(@, x.h), !.l = Min2(@, x.l), !.c = x.c, !.v = @ + x.v]
VARIABLES cur,      \* the bucket being filled (Empty: none)
          out       \* what the last step emitted (Empty: nothing)
Init == cur = Empty /\ out = Empty
\* First candle of a bucket, nothing pending.
Begin(b, x, last) ==
  /\ ~cur.on
  /\ IF last THEN cur' = Empty /\ out' = Fresh(b, x) ELSE cur' = Fresh(b, x) /\ out' = Empty
Continue(b, x, last) ==
  /\ cur.on /\ cur.b = b
  /\ IF last THEN cur' = Empty /\ out' = Absorb(cur, x) ELSE cur' = Absorb(cur, x) /\ out' = Empty
\* A later bucket begins although the pending one never saw its last candle.
Overtake(b, x, last) ==
  /\ cur.on /\ cur.b # b /\ ~last
  /\ out' = cur /\ cur' = Fresh(b, x)
\* Two buckets complete at once: refused loudly ("too many missing candles").
Refused(b, last) == cur.on /\ cur.b # b /\ last
Step(b, x, last) == Begin(b, x, last) \/ Continue(b, x, last) \/ Overtake(b, x, last)
=============================================================================
