------------------------------ MODULE PreciseMC ------------------------------
(* The precise values lie inside the intervals of module Indicators.          *)
EXTENDS Precise
I == INSTANCE Indicators
CONSTANTS LEN, PRICES, PERIODS
VARIABLES c, st, ist, n
vars == <<c, st, ist, n>>
Cfg(k, p) == [k |-> k, p |-> p, n |-> 2, d |-> p[1] + 1, n2 |-> 2, d2 |-> p[2] + 1, off |-> <<85, 100>>, sigma |-> 0,
              unit |-> IF k = "DM" THEN 2500 ELSE 25000]
Init == c \in {Cfg(k, <<p, q, 2>>) : k \in PK, p \in PERIODS, q \in {1, 2}} /\ st = PStart /\ ist = I!Start /\ n = 0
Next == n < LEN /\ n' = n + 1 /\ c' = c /\ \E x \in PRICES, w \in PRICES :
  /\ (c.k = "DM" \/ w = x)
  /\ st' = PStep(st, c, Max2(x, w), Min2(x, w), x) /\ ist' = I!Step(ist, c, Max2(x, w), Min2(x, w), x)
Spec == Init /\ [][Next]_vars
Ripe == st.t >= PRipe(c)
V == I!Vals(ist, c)
\* From the coarse unit (10^-5, for DM and percentages 10^-4) to the fine one.
Fine(v) == IF c.k \in {"DM", "Rsi"} THEN By(<<0, 0>> \o FromInt(v), 1) ELSE IF v = 0 THEN <<>> ELSE By(<<0>> \o FromInt(v), 1000)
Raised(v) == IF v >= 0 THEN Off(Fine(v)) ELSE Minus(K, Fine(-v))
Mid(v) == Raised((v[1] + v[2]) \div 2)
Wide(v) == Fine((v[2] - v[1]) + 3)
\* What the precise values are, as they would be logged.
Y == CASE c.k = "Sma" -> <<Off(Div(Total(st.w), Len(st.w)))>>
       [] c.k = "Ema" -> <<Off(st.e.v)>>
       [] c.k \in {"Ema2", "Smma"} -> <<Off(st.a.v)>>
       [] c.k = "Dema" -> <<Minus(Off(By(st.e.v, 2)), st.f.v)>>
       [] c.k = "DM" -> <<Off(st.s.v), Off(st.u.v)>>
       [] c.k = "Macd" -> <<Minus(Off(st.e.v), st.f.v), st.g.v, Minus(Off(Minus(Off(st.e.v), st.f.v)), st.g.v)>>
       [] OTHER -> <<>>
Agree == Ripe => \A i \in DOMAIN Y : Close(Y[i], Mid(V[i]), Wide(V[i]))
Accepts == (Ripe /\ c.k # "Rsi") => Shows(st, c, Y)
\* Relative strength: the coarse value is close, a wrong one by a hundredth is refused.
RsiNear == (Ripe /\ c.k = "Rsi" /\ Add(st.a.v, st.b.v) # <<>>) =>
  LET u == st.a.v all == Add(u, st.b.v) y == Mid(V[1]) IN
  /\ Close(Mul(y, all), Mul(K, Add(u, all)), Mul(all, Wide(V[1])))
  /\ ~Shows(st, c, <<Add(y, <<0, 0, 100>>)>>)
=============================================================================
