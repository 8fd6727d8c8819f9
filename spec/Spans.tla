-------------------------------- MODULE Spans --------------------------------
(* Half-open time spans <<s, e>> and what the three operations on them mean.  *)
EXTENDS Arith, Sequences, FiniteSets
Points(sp) == sp[1]..(sp[2] - 1)
Cover(ss) == UNION {Points(ss[i]) : i \in DOMAIN ss}
Wellformed(ss) == /\ \A i \in DOMAIN ss : ss[i][1] < ss[i][2]
                  /\ \A i \in 1..(Len(ss) - 1) : ss[i][2] <= ss[i + 1][1]
\* Ordered, non-empty, disjoint and not even touching: one such sequence per set of points.
Canonical(ss) == Wellformed(ss) /\ \A i \in 1..(Len(ss) - 1) : ss[i][2] < ss[i + 1][1]
Merged(ss, outs) == Canonical(outs) /\ Cover(outs) = Cover(ss)
Missing(a, b, ss, outs) == Canonical(outs) /\ Cover(outs) = (a..(b - 1)) \ Cover(ss)
\* Pages of at most lim intervals of length iv over a..b.
Paged(a, b, iv, lim, outs) ==
  /\ outs = <<>> <=> a = b
  /\ outs # <<>> => outs[1][1] = a /\ outs[Len(outs)][2] = b
  /\ \A i \in DOMAIN outs : outs[i][1] < outs[i][2] /\ outs[i][2] - outs[i][1] <= lim * iv
  /\ \A i \in 1..(Len(outs) - 1) : outs[i][2] = outs[i + 1][1] /\ outs[i][2] - outs[i][1] = lim * iv
=============================================================================
