----------------------------- MODULE CalendarMC -----------------------------
(* A plain odometer (second by second would do; here steps that visit every   *)
(* day start and its neighbours) against the closed formulas: dates, weekdays,*)
(* and floors and ceilings as the last boundary seen and the next to come.    *)
EXTENDS Calendar
CONSTANTS STARTS, SPAN, IVS   \* odometers start on STARTS and run for SPAN days
VARIABLES t0, t, y, m, dd, wd, iv, seen   \* seen: latest boundary so far or <<>>
vars == <<t0, t, y, m, dd, wd, iv, seen>>
Intervals == {[k |-> "w", ms |-> 0], [k |-> "M", ms |-> 0]} \cup {[k |-> "n", ms |-> i] : i \in IVS}
Points == <<0, 1, 3600000, 43200000, 86399999>>
Init == /\ t0 \in STARTS /\ t = <<t0, 0>> /\ iv \in Intervals
        /\ y = Year(t0) /\ m = Month(t0) /\ dd = DayOfMonth(t0)
        /\ wd = Weekday(t0)
        /\ seen = IF IsBoundary(t, iv) THEN t ELSE <<>>
Tick ==
  /\ t[1] < t0 + SPAN
  /\ LET i == CHOOSE i \in DOMAIN Points : Points[i] = t[2] IN
     IF i < Len(Points) THEN t' = <<t[1], Points[i + 1]>> /\ UNCHANGED <<y, m, dd, wd>>
     ELSE /\ t' = <<t[1] + 1, 0>>
          /\ wd' = IF wd = 6 THEN 0 ELSE wd + 1
          /\ IF dd < MonthDays(y, m) THEN dd' = dd + 1 /\ UNCHANGED <<y, m>>
             ELSE IF m < 12 THEN dd' = 1 /\ m' = m + 1 /\ y' = y
             ELSE dd' = 1 /\ m' = 1 /\ y' = y + 1
  /\ seen' = IF IsBoundary(t', iv) THEN t' ELSE seen
  /\ iv' = iv /\ t0' = t0
Next == Tick
Spec == Init /\ [][Next]_vars

DateRight == Year(t[1]) = y /\ Month(t[1]) = m /\ DayOfMonth(t[1]) = dd /\ Weekday(t[1]) = wd
DateInverse == Date(y, m, dd) = t[1]
Sandwich == AtMost(Floor(t, iv), t) /\ AtMost(t, Ceil(t, iv))
OnGrid == IsBoundary(Floor(t, iv), iv) /\ IsBoundary(Ceil(t, iv), iv)
Idempotent == Floor(Floor(t, iv), iv) = Floor(t, iv) /\ Ceil(Ceil(t, iv), iv) = Ceil(t, iv)
Meet == (Floor(t, iv) = Ceil(t, iv)) <=> IsBoundary(t, iv)
\* Boundaries at visited points cannot be missed (week, month, day-sized intervals).
Latest == seen # <<>> => AtMost(seen, Floor(t, iv))
NothingBetween == LET f == Floor(t, iv) IN Before(t, NextBoundary(f, iv))
WeekMonth == (iv.k # "n" /\ seen # <<>>) => Floor(t, iv) = seen
Arithmetic == Plus(Minus(t, 90061007), 90061007) = t
=============================================================================
