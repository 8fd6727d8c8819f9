------------------------------ MODULE AdviceMC ------------------------------
(* The state machines agree with what the filters mean for whole histories:  *)
(* all advice streams up to LEN, all filters.                                *)
EXTENDS Advice
CONSTANT LEN
VARIABLES h, outC, ch, outM, mid, level, back, outP, pers
vars == <<h, outC, ch, outM, mid, level, back, outP, pers>>
Init == /\ h = <<>> /\ outC = <<>> /\ outM = <<>> /\ outP = <<>>
        /\ ch = ChangedInit /\ mid = MidInit /\ pers = PersInit
        /\ level \in 0..3 /\ back \in BOOLEAN
Step(a) ==
  /\ h' = Append(h, a)
  /\ outC' = Append(outC, ChangedOut(ch, a, TRUE)) /\ ch' = ChangedNext(ch, a, TRUE)
  /\ outM' = Append(outM, MidOut(mid, a, "Ignore")) /\ mid' = MidNext(mid, a, "Ignore")
  /\ outP' = Append(outP, PersOut(pers, a, level, back)) /\ pers' = PersNext(pers, a, level)
  /\ UNCHANGED <<level, back>>
Next == Len(h) < LEN /\ \E a \in Codes : Step(a)
Spec == Init /\ [][Next]_vars

N == Len(h)
LastOf(s, i) == \* last non-none element of s before i, None if there is none
  LET S == {j \in 1..(i - 1) : s[j] # None} IN IF S = {} THEN None ELSE s[CHOOSE j \in S : \A k \in S : k <= j]
\* Passed on exactly when different from the last passed one, and never none.
ChangedMeaning == \A i \in 1..N :
  outC[i] = IF h[i] # None /\ h[i] # LastOf(outC, i) THEN h[i] ELSE None
\* No two consecutive passed advices are equal.
NeverTwice == \A i \in 1..N : outC[i] # None => outC[i] # LastOf(outC, i)
\* Prevailing advice and age: candles since it was passed, counting that one.
AgeMeaning == N > 0 =>
  /\ ch.last = LastOf(outC, N + 1)
  /\ ch.age = IF ch.last = None THEN N
              ELSE N + 1 - (CHOOSE j \in 1..N : outC[j] # None /\ \A k \in (j + 1)..N : outC[k] = None)
\* Silent until the first change of the raw advice, transparent from then on.
MidMeaning == \A i \in 1..N :
  outM[i] = IF \E j \in 1..i : h[j] # h[1] THEN h[i] ELSE None
\* Passed on once the last level + 1 advices are equal.
Settled(i) == i > level /\ \A j \in (i - level)..i : h[j] = h[i]
\* A run of leading "none" counts like any other run.
LastSettled(i) == LET S == {j \in 1..(i - 1) : Settled(j)} IN IF S = {} THEN None ELSE h[CHOOSE j \in S : \A k \in S : k <= j]
PersMeaning == \A i \in 1..N :
  outP[i] = IF level = 0 \/ Settled(i) THEN h[i] ELSE IF back THEN LastSettled(i) ELSE None
=============================================================================
