------------------------------- MODULE Filters -------------------------------
(* Exchange filters on an integer grid.  f = [min, max, step]; 0 = no limit.  *)
EXTENDS BigNat
Capped(f, x) == IF f.max > 0 THEN Min2(x, f.max) ELSE x
\* Sets: more than one element only for steps without an exact binary form.
DownSet(f, x, ex) == IF x < f.min THEN {0}
  ELSE IF f.step = 0 THEN {Capped(f, x)} ELSE {q * f.step : q \in FloorSet(Capped(f, x), f.step, ex)}
UpSet(f, x, ex) == IF x < f.min THEN {0}
  ELSE IF f.step = 0 THEN {Capped(f, x)}
  ELSE {q * f.step : q \in (IF ~ex /\ Capped(f, x) % f.step = 0 THEN {Capped(f, x) \div f.step, 1 + Capped(f, x) \div f.step}
                            ELSE {CeilDiv(Capped(f, x), f.step)})}
Valid(f, x) == /\ f.min = 0 \/ x >= f.min
               /\ f.max = 0 \/ x <= f.max
               /\ f.step = 0 \/ (x - f.min) % f.step = 0
(* The same for numbers of many digits; q is the number of whole steps.       *)
WideCap(f, x) == IF f.max # <<>> /\ Less(f.max, x) THEN f.max ELSE x
WideDown(f, x, q, out, ex) ==
  IF Less(x, f.min) THEN out = <<>>
  ELSE LET y == WideCap(f, x)
           low == Mul(f.step, q)
       IN  IF f.step = <<>> THEN out = y
           ELSE /\ out = low
                /\ IF ex THEN ~Less(y, low) /\ Less(y, Add(low, f.step))
                   ELSE ~Less(y, low) /\ ~Less(Add(low, f.step), y)
WideUp(f, x, q, out, ex) ==
  IF Less(x, f.min) THEN out = <<>>
  ELSE LET y == WideCap(f, x)
           high == Mul(f.step, q)
       IN  IF f.step = <<>> THEN out = y
           ELSE /\ out = high
                /\ IF ex THEN ~Less(high, y) /\ Less(high, Add(y, f.step))
                   ELSE ~Less(high, y) /\ ~Less(Add(y, f.step), high)
\* k whole steps fit between the least and the value.
WideValid(f, x, k) ==
  /\ ~Less(x, f.min)
  /\ f.max = <<>> \/ ~Less(f.max, x)
  /\ f.step = <<>> \/ Add(f.min, Mul(f.step, k)) = x
=============================================================================
