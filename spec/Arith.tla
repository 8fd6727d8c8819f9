------------------------------- MODULE Arith -------------------------------
(* Exact integer arithmetic on scaled quantities, shared by all modules.     *)
(* The implementation computes with binary floating point.  Where a          *)
(* configuration is dyadic (ex = TRUE) its results are exact and every       *)
(* operator below returns a singleton.  Where decimal fractions occur, a     *)
(* result that is EXACTLY on a rounding boundary in real arithmetic may be   *)
(* represented a hair below or above it; the operators then return both      *)
(* neighbours.  Away from a boundary they are exact.                         *)
EXTENDS Integers

Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a

CeilDiv(a, b) == (a + b - 1) \div b

\* Floor of the rational a/b (b > 0).
FloorSet(a, b, ex) ==
  IF ~ex /\ a # 0 /\ a % b = 0 THEN {a \div b, (a \div b) - 1} ELSE {a \div b}

\* Round half up of the non-negative rational a/b.
RoundSet(a, b, ex) ==
  LET up == (2 * a + b) \div (2 * b)
  IN  IF ~ex /\ (2 * a + b) % (2 * b) = 0 THEN {up, up - 1} ELSE {up}

\* Truth values comparisons may take.
LessSet(a, b, ex) == IF ~ex /\ a = b THEN BOOLEAN ELSE {a < b}
LeqSet(a, b, ex)  == IF ~ex /\ a = b THEN BOOLEAN ELSE {a <= b}
GeqSet(a, b, ex)  == IF ~ex /\ a = b THEN BOOLEAN ELSE {a >= b}
OrSet(A, B) == {a \/ b : a \in A, b \in B}
=============================================================================
