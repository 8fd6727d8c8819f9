------------------------------- MODULE SpansMC -------------------------------
(* One left-to-right sweep computes the merge and the gaps; at every point of *)
(* the sweep the results so far are right for the part swept.                 *)
EXTENDS Spans, TLC
CONSTANTS TOP, MAXN
VARIABLES ss, a, b, i, merged, pend, gaps, pos
vars == <<ss, a, b, i, merged, pend, gaps, pos>>
AllSpans == {<<x, y>> \in (0..TOP) \X (0..TOP) : x < y}
Lists == {s \in UNION {[1..n -> AllSpans] : n \in 0..MAXN} : Wellformed(s)}
Init == /\ ss \in Lists /\ a \in 0..TOP /\ b \in a..TOP
        /\ i = 1 /\ merged = <<>> /\ pend = <<>> /\ gaps = <<>> /\ pos = a
Sweep == /\ i <= Len(ss)
         /\ LET s == ss[i][1] t == ss[i][2] IN
            /\ IF pend = <<>> THEN pend' = <<s, t>> /\ merged' = merged
               ELSE IF pend[2] = s THEN pend' = <<pend[1], t>> /\ merged' = merged
               ELSE pend' = <<s, t>> /\ merged' = Append(merged, pend)
            /\ gaps' = IF Min2(s, b) > pos THEN Append(gaps, <<pos, Min2(s, b)>>) ELSE gaps
            /\ pos' = Max2(pos, t)
         /\ i' = i + 1 /\ UNCHANGED <<ss, a, b>>
Next == Sweep
Spec == Init /\ [][Next]_vars
Done == i > Len(ss)
MergedNow == IF pend = <<>> THEN merged ELSE Append(merged, pend)
GapsNow == IF pos < b THEN Append(gaps, <<pos, b>>) ELSE gaps
MergeRight == Merged(SubSeq(ss, 1, i - 1), MergedNow)
GapsRight == Missing(a, b, SubSeq(ss, 1, i - 1), GapsNow)
Partition == Cover(GapsNow) \cap Cover(SubSeq(ss, 1, i - 1)) = {}
RECURSIVE PagesOf(_, _, _)
PagesOf(x, y, n) == IF x = y THEN <<>> ELSE LET z == Min2(x + n, y) IN <<<<x, z>>>> \o PagesOf(z, y, n)
PagesRight == \A iv \in 1..2, lim \in 1..3 : Paged(a, b, iv, lim, PagesOf(a, b, iv * lim))
=============================================================================
