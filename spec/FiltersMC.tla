------------------------------ MODULE FiltersMC ------------------------------
(* Every filter and value on a small grid.                                    *)
EXTENDS Filters
CONSTANT TOP
VARIABLES f, x
Init == f \in [min : 0..TOP, max : 0..TOP, step : 0..TOP] /\ x = 0
Next == x < TOP /\ x' = x + 1 /\ f' = f
Spec == Init /\ [][Next]_<<f, x>>
Down(y) == CHOOSE v \in DownSet(f, y, TRUE) : TRUE
Up(y) == CHOOSE v \in UpSet(f, y, TRUE) : TRUE
Sane == (f.max = 0 \/ f.min <= f.max) /\ (f.step = 0 \/ (f.min % f.step = 0 /\ f.max % f.step = 0))
Never == Down(x) <= x /\ (f.max > 0 => Down(x) <= f.max)
Largest == (f.step > 0 /\ x >= f.min) => /\ Down(x) % f.step = 0 /\ Capped(f, x) - Down(x) < f.step
                                         /\ Up(x) % f.step = 0 /\ Up(x) - Capped(f, x) < f.step /\ Up(x) >= Capped(f, x)
Idempotent == Sane => Down(Down(x)) = Down(x) /\ Up(Up(x)) = Up(x)
Accepted == (Sane /\ x >= f.min) => Valid(f, Down(x)) /\ Valid(f, Up(x))
ValidStays == (Sane /\ Valid(f, x)) => Down(x) = x /\ Up(x) = x
Monotone == [][Down(x) <= Down(x') /\ Up(x) <= Up(x')]_<<f, x>>
MonotoneOK == Monotone
\* The same answers from the arithmetic of long numbers.
K == 4999
Long(n) == FromInt(n * K)
W == [min |-> Long(f.min), max |-> Long(f.max), step |-> Long(f.step)]
WideAgrees ==
  LET ks == 0..(TOP + 2) IN
  /\ \A o \in ks : (\E q \in ks : WideDown(W, Long(x), FromInt(q), Long(o), TRUE)) <=> (o = Down(x))
  /\ \A o \in ks : (\E q \in ks : WideUp(W, Long(x), FromInt(q), Long(o), TRUE)) <=> (o = Up(x))
  /\ (\E q \in ks : WideValid(W, Long(x), FromInt(q))) <=> Valid(f, x)
=============================================================================
