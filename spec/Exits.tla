------------------------------- MODULE Exits -------------------------------
(* Stop-loss and take-profit rules as predicates over the closing price `c`, *)
(* the close at entry `ref` and the highest/lowest close since entry.        *)
(* An exit is a record [k, u, v, x, y, d, trail]: kind, thresholds u (long)  *)
(* and v (short), trailing thresholds x, y, all over the denominator d.      *)
(* Results are sets of truth values, see Arith.                              *)
EXTENDS Arith

FellBy(c, base, n, d, ex) == LeqSet(c * d, base * (d - n), ex)
RoseBy(c, base, n, d, ex) == GeqSet(c * d, base * (d + n), ex)

StopLong(s, c, ref, hi, ex) ==
  CASE s.k = "noop"   -> {FALSE}
    [] s.k = "basic"  -> FellBy(c, ref, s.u, s.d, ex)
    [] s.k = "trail"  -> FellBy(c, hi, s.x, s.d, ex)
    [] s.k = "both"   -> OrSet(FellBy(c, ref, s.u, s.d, ex), FellBy(c, hi, s.x, s.d, ex))
    [] s.k = "legacy" -> IF s.u = 0 THEN {FALSE}
                         ELSE FellBy(c, IF s.trail = 1 THEN hi ELSE ref, s.u, s.d, ex)

StopShort(s, c, ref, lo, ex) ==
  CASE s.k = "noop"   -> {FALSE}
    [] s.k = "basic"  -> RoseBy(c, ref, s.v, s.d, ex)
    [] s.k = "trail"  -> RoseBy(c, lo, s.y, s.d, ex)
    [] s.k = "both"   -> OrSet(RoseBy(c, ref, s.v, s.d, ex), RoseBy(c, lo, s.y, s.d, ex))
    [] s.k = "legacy" -> IF s.u = 0 THEN {FALSE}
                         ELSE RoseBy(c, IF s.trail = 1 THEN lo ELSE ref, s.u, s.d, ex)

TakeLong(s, c, ref, ex) ==
  CASE s.k = "noop"   -> {FALSE}
    [] s.k = "basic"  -> RoseBy(c, ref, s.u, s.d, ex)
    [] s.k = "legacy" -> IF s.u = 0 THEN {FALSE} ELSE RoseBy(c, ref, s.u, s.d, ex)

TakeShort(s, c, ref, ex) ==
  CASE s.k = "noop"   -> {FALSE}
    [] s.k = "basic"  -> FellBy(c, ref, s.v, s.d, ex)
    [] s.k = "legacy" -> IF s.u = 0 THEN {FALSE} ELSE FellBy(c, ref, s.u, s.d, ex)
=============================================================================
