------------------------------ MODULE Symbols ------------------------------
(* Symbols (texts as sequences of code points) split at their first dash, and *)
(* the totals of fills.                                                       *)
EXTENDS Integers, Sequences
DASH == 45
IsSymbol(s) == \E i \in DOMAIN s : s[i] = DASH
DashAt(s) == CHOOSE i \in DOMAIN s : s[i] = DASH /\ \A j \in 1..(i - 1) : s[j] # DASH
Base(s) == SubSeq(s, 1, DashAt(s) - 1)
Quote(s) == SubSeq(s, DashAt(s) + 1, Len(s))
Assets(s) == <<Base(s), Quote(s)>>
RECURSIVE AllAssets(_)
AllAssets(ss) == IF ss = <<>> THEN <<>> ELSE Assets(Head(ss)) \o AllAssets(Tail(ss))
RECURSIVE SumOf(_)
SumOf(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumOf(Tail(s))
TotalOf(fills, k) == SumOf([i \in DOMAIN fills |-> fills[i][k]])
=============================================================================
