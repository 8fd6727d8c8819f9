------------------------------- MODULE BigNat -------------------------------
(* Natural numbers beyond 32 bits: little-endian sequences of base-10000      *)
(* limbs without trailing zeros (zero is <<>>).                               *)
EXTENDS Arith, Sequences
BASE == 10000
Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
RECURSIVE Trim(_)
Trim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a
RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, c) ==
  IF i > Max2(Len(a), Len(b)) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == Limb(a, i) + Limb(b, i) + c IN <<s % BASE>> \o AddFrom(a, b, i + 1, s \div BASE)
Add(a, b) == Trim(AddFrom(a, b, 1, 0))
RECURSIVE ScaleFrom(_, _, _, _)
ScaleFrom(a, k, i, c) ==   \* a * k + c for one limb k
  IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == a[i] * k + c IN <<s % BASE>> \o ScaleFrom(a, k, i + 1, s \div BASE)
RECURSIVE Mul(_, _)
Mul(a, b) == IF b = <<>> THEN <<>>
             ELSE Add(Trim(ScaleFrom(a, b[1], 1, 0)), LET h == Mul(a, Tail(b)) IN IF h = <<>> THEN <<>> ELSE <<0>> \o h)
RECURSIVE FromDigits(_)
FromDigits(ds) == IF ds = <<>> THEN <<>>     \* most significant digit first
                  ELSE Trim(ScaleFrom(FromDigits(SubSeq(ds, 1, Len(ds) - 1)), 10, 1, ds[Len(ds)]))
RECURSIVE FromInt(_)
FromInt(n) == IF n = 0 THEN <<>> ELSE <<n % BASE>> \o FromInt(n \div BASE)
RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) == i > 0 /\ (a[i] < b[i] \/ (a[i] = b[i] /\ LessFrom(a, b, i - 1)))
Less(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LessFrom(a, b, Len(a)))
\* 2^64 = 18446744073709551616
TooBig == <<1616, 955, 737, 6744, 1844>>
U64(a) == Less(a, TooBig)
=============================================================================
