-------------------------------- MODULE Logs --------------------------------
(* Fixed-point logarithms and powers of natural numbers (32-bit arithmetic).  *)
(* LnM(n) is 1000000 ln(n) within 20 units, LnS(n) is 100000 ln(n) and        *)
(* Log10S(n) is 100000 log10(n), both within 4; Pow10S(x) is 10^(x/100000)    *)
(* times 10000 within 1/5000 of it.                                           *)
EXTENDS Integers, Sequences
LnTab == <<0, 15504, 30772, 45810, 60625, 75223, 89612, 103797, 117783, 131576, 145182, 158605, 171850, 184922, 197826, 210565, 223144, 235566, 247836, 259958, 271934, 283768, 295464, 307025, 318454, 329753, 340927, 351976, 362905, 373716, 384412, 394994, 405465, 415828, 426084, 436237, 446287, 456237, 466090, 475846, 485508, 495077, 504556, 513946, 523248, 532465, 541597, 550647, 559616, 568505, 577315, 586049, 594707, 603291, 611802, 620240, 628609, 636907, 645138, 653301, 661398, 669431, 677399, 685304, 693147>>
PowTab == <<10000, 10366, 10746, 11140, 11548, 11971, 12409, 12864, 13335, 13824, 14330, 14855, 15399, 15963, 16548, 17154, 17783, 18434, 19110, 19810, 20535, 21288, 22067, 22876, 23714, 24582, 25483, 26416, 27384, 28387, 29427, 30505, 31623, 32781, 33982, 35227, 36517, 37855, 39242, 40679, 42170, 43714, 45316, 46976, 48697, 50481, 52330, 54247, 56234, 58294, 60430, 62643, 64938, 67317, 69783, 72339, 74989, 77737, 80584, 83536, 86596, 89769, 93057, 96466, 100000>>
RECURSIVE TwoLog(_)
TwoLog(n) == IF n < 2 THEN 0 ELSE 1 + TwoLog(n \div 2)
\* n = 2^k (1 + f): f in units of 1/2^16, split in 64 cells.
\* Linear interpolation plus its second-order correction.
LnM(n) ==
  LET k == TwoLog(n)
      f == IF k >= 16 THEN (n - 2^k) \div (2^(k - 16)) ELSE (n - 2^k) * 2^(16 - k)
      c == f \div 1024
      d == f - 1024 * c
      bend == (((122 * d) \div 1024) * (1024 - d)) \div 1024
  IN  ((k * 6931472) \div 10) + LnTab[c + 1] + ((LnTab[c + 2] - LnTab[c + 1]) * d) \div 1024
      + (((bend * 64) \div (64 + c)) * 64) \div (64 + c)
LnS(n) == LnM(n) \div 10
Log10S(n) == LET x == LnS(n) IN
  LET a == x \div 1000 IN (a * 434) + ((a * 2945) \div 10000) + (((x - 1000 * a) * 43429) \div 100000)
RECURSIVE Ten(_)
Ten(k) == IF k = 0 THEN 1 ELSE 10 * Ten(k - 1)
\* x >= 0
Pow10S(x) ==
  LET k == x \div 100000
      f == (x - 100000 * k) * 64
      c == f \div 100000
      d == f - 100000 * c
  IN  Ten(k) * (PowTab[c + 1] + ((PowTab[c + 2] - PowTab[c + 1]) * (d \div 10)) \div 10000)
=============================================================================
