------------------------------- MODULE Advice -------------------------------
(* Advice filters: what each of them passes on, as state machines over the   *)
(* stream of advices.  Advice codes: 0 none, 1 long, 2 short, 3 liquidate.   *)
EXTENDS Integers, Sequences, TLC

None == 0  Long == 1  Short == 2  Liquidate == 3
Codes == 0..3

Combine(a, b) == IF a = None \/ b = None THEN None ELSE IF a = b THEN a ELSE Liquidate

(* ---- change filter: state [last, age] ---- *)
ChangedInit == [last |-> None, age |-> 0]
ChangedPasses(s, a) == a # None /\ a # s.last
ChangedOut(s, a, on) == IF on THEN (IF ChangedPasses(s, a) THEN a ELSE None) ELSE a
ChangedNext(s, a, on) ==
  IF ~on THEN s
  ELSE IF ChangedPasses(s, a) THEN [last |-> a, age |-> 1] ELSE [s EXCEPT !.age = @ + 1]

(* ---- mid-trend filter: state [first (-1: nothing seen), open] ---- *)
MidInit == [first |-> -1, open |-> FALSE]
MidOpens(s, a) == s.first # -1 /\ a # s.first
MidOut(s, a, policy) ==
  IF policy # "Ignore" \/ s.open \/ MidOpens(s, a) THEN a ELSE None
MidNext(s, a, policy) ==
  IF policy # "Ignore" \/ s.open THEN s
  ELSE IF s.first = -1 THEN [s EXCEPT !.first = a]
  ELSE IF a # s.first THEN [s EXCEPT !.open = TRUE] ELSE s

(* ---- persistence filter: state [val, len, passed]: current run of equal advices ---- *)
PersInit == [val |-> None, len |-> 0, passed |-> None]
\* Length of the run that ends with this advice (capped: only "long enough" matters).
PersLen(s, a, level) == IF a # s.val THEN 1 ELSE IF s.len > level THEN s.len ELSE s.len + 1
PersOut(s, a, level, back) ==
  IF level = 0 THEN a
  ELSE IF PersLen(s, a, level) > level THEN a
  ELSE IF back THEN s.passed ELSE None
PersNext(s, a, level) ==
  IF level = 0 THEN s
  ELSE LET n == PersLen(s, a, level)
       IN  [val |-> a, len |-> n, passed |-> IF n > level THEN a ELSE s.passed]
=============================================================================
