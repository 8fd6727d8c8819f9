------------------------------- MODULE Easing -------------------------------
(* Easing curves on the grid x = i/N, as values scaled by SCALE.  The in      *)
(* variants are given in closed form; an out variant is the point reflection  *)
(* of its in variant, and an in-out variant the in variant at half size       *)
(* followed by its point reflection.                                          *)
EXTENDS Arith, Sequences, TLC
N == 32
SCALE == 100000
TOL == 6
RECURSIVE Dec(_, _, _)
\* 10^k * a/b for natural a, b with 10 b < 2^31.
Dec(a, b, k) == IF k = 0 THEN a \div b ELSE LET h == a \div b IN h * 10^k + Dec(10 * (a - h * b), b, k - 1)
Part(a, b) == IF a >= 0 THEN Dec(a, b, 5) ELSE -Dec(-a, b, 5)
\* SCALE * (i/N)^k without leaving 32 bits: multiply and divide in turn.
RECURSIVE Frac(_, _)
Frac(i, k) == IF k = 0 THEN SCALE * 16 ELSE (Frac(i, k - 1) * i) \div N
\* a * b / SCALE for |a|, b <= SCALE
Times(a, b) == LET m == Abs(a) IN
  LET p == ((m * (b \div 1000)) \div 100) + ((m * (b % 1000)) \div SCALE) IN IF a < 0 THEN -p ELSE p
\* sin(k pi / 64)
Quarter == <<0, 4907, 9802, 14673, 19509, 24298, 29028, 33689, 38268, 42756, 47140, 51410, 55557, 59570, 63439, 67156, 70711, 74095, 77301, 80321, 83147, 85773, 88192, 90399, 92388, 94154, 95694, 97003, 98079, 98918, 99518, 99880, 100000>>
Sin(k) == LET m == k % 128 IN
  CASE m <= 32 -> Quarter[m + 1] [] m \in 33..64 -> Quarter[65 - m]
    [] m \in 65..96 -> -Quarter[m - 63] [] OTHER -> -Quarter[129 - m]
\* 2^(-j / 16)
Sixteenths == <<100000, 95760, 91700, 87813, 84090, 80525, 77111, 73841, 70711, 67713, 64842, 62093, 59460, 56939, 54525, 52214>>
HalfLife(j) == Sixteenths[(j % 16) + 1] \div 2^(j \div 16)
\* Integer square root.
RECURSIVE Root(_, _, _)
Root(a, lo, hi) == IF hi - lo <= 1 THEN lo
                   ELSE LET m == (lo + hi) \div 2 IN IF m * m <= a THEN Root(a, m, hi) ELSE Root(a, lo, m)
BounceOut(j) ==
  IF 11 * j < 128 THEN Part(121 * j * j, 16384)
  ELSE IF 11 * j < 256 THEN Part((363 * j * j) - (99 * 128 * j) + (136 * 1024), 40960)
  ELSE IF 10 * j < 288 THEN Part((21780 * j * j) - (35442 * 32 * j) + (16061 * 1024), 1848320)
  ELSE Part((270 * j * j) - (513 * 32 * j) + (268 * 1024), 25600)
Degree == [Linear |-> 1, Quad |-> 2, Cubic |-> 3, Quart |-> 4, Quint |-> 5]
Families == {"Linear", "Quad", "Cubic", "Quart", "Quint", "Sine", "Circ", "Expo", "Elastic", "Back", "Bounce"}
Rising == Families \ {"Elastic", "Back", "Bounce"}
In(f, i) ==
  CASE f \in DOMAIN Degree -> Frac(i, Degree[f]) \div 16
    [] f = "Sine" -> SCALE - Sin(N - i)
    [] f = "Circ" -> SCALE - Part(Root((28800 * 28800) - (900 * i) * (900 * i), 0, 28801), 28800)
    [] f = "Expo" -> IF i = 0 THEN 0 ELSE HalfLife(5 * (N - i))
    [] f = "Elastic" -> Times(Sin(13 * i), HalfLife(5 * (N - i)))
    [] f = "Back" -> (Frac(i, 3) \div 16) - ((i * Sin(2 * i)) \div N)
    [] f = "Bounce" -> SCALE - BounceOut(N - i)
Out(f, i) == SCALE - In(f, N - i)
Both(f, i) == IF 2 * i <= N THEN In(f, 2 * i) \div 2 ELSE SCALE - (In(f, 2 * (N - i)) \div 2)
\* The value of variant v of family f at i/N.
Curve(f, v, i) == CASE v = "In" -> In(f, i) [] v = "Out" -> Out(f, i) [] v = "Inout" -> Both(f, i)
At(f, v, i, y) == Abs(y - Curve(f, v, i)) <= TOL
\* Between grid points i and i+1 a rising curve stays between its values there; the others do not run away.
\* (The exponential curves jump at their flat ends.)
Within(f, v, i, y) ==
  IF f \in Rising THEN Curve(f, v, i) - TOL <= y /\ y <= Curve(f, v, i + 1) + TOL
  ELSE Abs(y - Curve(f, v, i)) <= (SCALE \div 2) + TOL
\* Close to the ends the curves are straight (circles aside): values at k millionths from an end, in millionths.
Beside(slope, k) == (slope * k) \div 1000
AfterZero(f, k) ==
  CASE f = "Linear" -> k
    [] f = "Expo" -> 977
    [] f = "Elastic" -> Beside(20, k)
    [] f = "Bounce" -> Beside(1080, k)
    [] OTHER -> 0
BelowOne(f, k) ==
  CASE f \in DOMAIN Degree -> Degree[f] * k
    [] f = "Sine" -> Beside(1571, k)
    [] f = "Circ" -> Root(2000000 * k, 0, 44721)
    [] f \in {"Expo", "Elastic"} -> Beside(6931, k)
    [] f = "Back" -> Beside(6142, k)
    [] f = "Bounce" -> 0
MILLION == 1000000
NearIn(f, side, k) == IF side = "start" THEN AfterZero(f, k) ELSE MILLION - BelowOne(f, k)
\* The in-out variants also come close to an end of their in variant on both sides of the middle.
Near(f, v, side, k) ==
  CASE v = "In" -> NearIn(f, side, k)
    [] v = "Out" -> MILLION - NearIn(f, IF side = "start" THEN "end" ELSE "start", k)
    [] side = "start" -> NearIn(f, "start", 2 * k) \div 2
    [] side = "before" -> NearIn(f, "end", 2 * k) \div 2
    [] side = "after" -> MILLION - (NearIn(f, "end", 2 * k) \div 2)
    [] side = "end" -> MILLION - (NearIn(f, "start", 2 * k) \div 2)
NEARLY == 60
CloseBy(f, v, side, k, y) == Abs(y - Near(f, v, side, k)) <= NEARLY
=============================================================================
