------------------------------ MODULE EasingMC ------------------------------
(* Walks along every curve: where it starts and ends, how it bends, and laws  *)
(* which tie the tables to the functions they stand for.                      *)
EXTENDS Easing
VARIABLES f, v, i
vars == <<f, v, i>>
Init == f \in Families /\ v \in {"In", "Out", "Inout"} /\ i = 0
Next == i < N /\ i' = i + 1 /\ UNCHANGED <<f, v>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Y == Curve(f, v, i)
Close(a, b) == Abs(a - b) <= TOL
Ends == (i = 0 => Close(Y, 0)) /\ (i = N => Close(Y, SCALE))
Rises == (i < N /\ f \in Rising) => Y <= Curve(f, v, i + 1)
Stays == f \notin {"Elastic", "Back"} => Y \in (-TOL)..(SCALE + TOL)
Slowly == (f \in Rising /\ v = "In") => Y <= ((SCALE * i) \div N) + 1
Quickly == (f \in Rising /\ v = "Out") => Y + 1 >= (SCALE * i) \div N
Halfway == v = "Inout" => Close(Curve(f, v, N \div 2), SCALE \div 2)
Symmetric == v = "Inout" => Close(Y, SCALE - Curve(f, v, N - i))
\* Close to the ends a rising curve lies between the end and the nearest grid point.
Sides == IF v = "Inout" THEN {"start", "before", "after", "end"} ELSE {"start", "end"}
NearEnds == f \in Rising => \A side \in Sides : \A k \in {1, 50, 100, 200, 300} :
  LET y == Near(f, v, side, k)
      lo == CASE side = "start" -> 0 [] side = "before" -> Curve(f, v, (N \div 2) - 1)
             [] side = "after" -> Curve(f, v, N \div 2) [] side = "end" -> Curve(f, v, N - 1)
      hi == CASE side = "start" -> Curve(f, v, 1) [] side = "before" -> Curve(f, v, N \div 2)
             [] side = "after" -> Curve(f, v, (N \div 2) + 1) [] side = "end" -> SCALE
  IN  (10 * lo) - NEARLY <= y /\ y <= (10 * hi) + NEARLY
\* Tables.
Pythagoras == Close(Times(Sin(i), Sin(i)) + Times(Sin(N - i), Sin(N - i)), SCALE)
DoubleAngle == Close(2 * Times(Sin(i), Sin(N - i)), Sin(2 * i))
PowersAdd == \A j \in 0..N : Close(Times(HalfLife(i), HalfLife(j)), HalfLife(i + j))
RootRight == LET x == Root(i * i * 7919, 0, 46340) IN x * x <= i * i * 7919 /\ (x + 1) * (x + 1) > i * i * 7919
Arrives == <>(i = N)
=============================================================================
