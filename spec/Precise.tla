------------------------------- MODULE Precise -------------------------------
(* The linear averages and the oscillators made of them, to twelve decimals:  *)
(* values are natural numbers at 10^-12, rounded down at every step (which    *)
(* adds up to less than a hundred units).  Prices are quarters.               *)
EXTENDS BigNat, Maturity

PK == {"Sma", "Ema", "Ema2", "Dema", "Smma", "Rsi", "DM", "Macd"}
Px(q) == IF q = 0 THEN <<>> ELSE <<0, 0>> \o FromInt(q * 2500)     \* q quarters
K == <<0, 0, 0, 100>>                                              \* one hundred, which every logged value is raised by
By(a, k) == IF k = 0 \/ a = <<>> THEN <<>> ELSE Trim(ScaleFrom(a, k, 1, 0))
RECURSIVE DivFrom(_, _, _, _)
DivFrom(a, d, i, rem) == IF i = 0 THEN <<>>
  ELSE LET x == rem * BASE + a[i] IN Append(DivFrom(a, d, i - 1, x % d), x \div d)
Div(a, d) == Trim(DivFrom(a, d, Len(a), 0))
RECURSIVE MinusFrom(_, _, _, _)
MinusFrom(a, b, i, c) == IF i > Len(a) THEN <<>>
  ELSE LET x == a[i] - Limb(b, i) - c IN <<IF x < 0 THEN x + BASE ELSE x>> \o MinusFrom(a, b, i + 1, IF x < 0 THEN 1 ELSE 0)
Minus(a, b) == Trim(MinusFrom(a, b, 1, 0))      \* a >= b
Close(a, b, tol) == ~Less(Add(b, tol), a) /\ ~Less(Add(a, tol), b)

Mix(v, x, n, d) == Div(Add(By(x, n), By(v, d - n)), d)
PE0 == [t |-> 0, v |-> <<>>]
PE(s, x, n, d) == [t |-> s.t + 1, v |-> IF s.t = 0 THEN x ELSE Mix(s.v, x, n, d)]
PA0 == [t |-> 0, s |-> <<>>, v |-> <<>>]
PA(st, x, p, n, d) ==
  LET t == st.t + 1 s == IF t <= p THEN Add(st.s, x) ELSE st.s
  IN  [t |-> t, s |-> s, v |-> IF t < p THEN <<>> ELSE IF t = p THEN Div(s, p) ELSE Mix(st.v, x, n, d)]
PS0 == [t |-> 1, v |-> <<>>]
PS(st, x, p) == LET t == st.t + 1 IN
  [t |-> t, v |-> IF t <= p THEN Add(st.v, x) ELSE Add(Div(By(st.v, p - 1), p), x)]

RECURSIVE Total(_)
Total(w) == IF w = <<>> THEN <<>> ELSE Add(Head(w), Total(Tail(w)))
Keep(w, x, n) == LET y == Append(w, x) IN IF Len(y) > n THEN Tail(y) ELSE y
Most(a, b) == Max2(a, b)

PStart == [t |-> 0, w |-> <<>>, o |-> <<>>, e |-> PE0, f |-> PE0, g |-> PE0, a |-> PA0, b |-> PA0, s |-> PS0, u |-> PS0]
PStep(st, c, h, lw, q) ==
  LET p == c.p[1] t == st.t + 1 x == Px(q)
      base == [st EXCEPT !.t = t]
  IN CASE c.k = "Sma" -> [base EXCEPT !.w = Keep(st.w, x, p)]
       [] c.k = "Ema" -> [base EXCEPT !.e = PE(st.e, x, c.n, c.d)]
       [] c.k = "Ema2" -> [base EXCEPT !.a = PA(st.a, x, p, 2, p + 1)]
       [] c.k = "Smma" -> [base EXCEPT !.a = PA(st.a, x, p, 1, p)]
       [] c.k = "Dema" ->
            LET e == PE(st.e, x, 2, p + 1)
                f1 == IF t <= p THEN PE(st.f, x, 2, p + 1) ELSE st.f
            IN  [base EXCEPT !.e = e, !.f = IF t >= p THEN PE(f1, e.v, 2, p + 1) ELSE f1]
       [] c.k = "Rsi" ->
            IF st.t = 0 THEN [base EXCEPT !.o = <<q>>]
            ELSE [base EXCEPT !.o = <<q>>, !.a = PA(st.a, Px(Max2(0, q - st.o[1])), p, 1, p),
                                           !.b = PA(st.b, Px(Max2(0, st.o[1] - q)), p, 1, p)]
       [] c.k = "DM" ->
            IF st.t = 0 THEN [base EXCEPT !.o = <<h, lw>>]
            ELSE LET up == Max2(h - st.o[1], 0) dn == Max2(st.o[2] - lw, 0) IN
                 [base EXCEPT !.o = <<h, lw>>, !.s = PS(st.s, Px(IF up >= dn THEN up ELSE 0), p),
                                               !.u = PS(st.u, Px(IF dn >= up THEN dn ELSE 0), p)]
       [] c.k = "Macd" ->
            LET e == PE(st.e, x, c.n, c.d) f == PE(st.f, x, c.n2, c.d2)
                ripe == t >= c.p[1] /\ t >= c.p[2]
            IN  [base EXCEPT !.e = e, !.f = f, !.g = IF ripe THEN PE(st.g, Minus(Add(e.v, K), f.v), 2, c.p[3] + 1) ELSE st.g]
PRipe(c) == MatureInd(c.k, c.p)
\* The logged values y, each raised by K.
Off(v) == Add(v, K)
TOLP == <<500>>
Shows(st, c, y) ==
  CASE c.k = "Sma" -> Close(y[1], Off(Div(Total(st.w), Len(st.w))), TOLP)
    [] c.k = "Ema" -> Close(y[1], Off(st.e.v), TOLP)
    [] c.k \in {"Ema2", "Smma"} -> Close(y[1], Off(st.a.v), TOLP)
    [] c.k = "Dema" -> Close(Add(y[1], st.f.v), Off(By(st.e.v, 2)), TOLP)
    [] c.k = "Rsi" -> LET u == st.a.v all == Add(u, st.b.v) IN
         IF all = <<>> THEN y[1] = K
         ELSE Close(Mul(y[1], all), Mul(K, Add(u, all)), Add(Mul(K, <<100>>), By(all, 500)))
    [] c.k = "DM" -> Close(y[1], Off(st.s.v), TOLP) /\ Close(y[2], Off(st.u.v), TOLP)
    [] c.k = "Macd" -> /\ Close(Add(y[1], st.f.v), Off(st.e.v), TOLP)
                       /\ Close(y[2], st.g.v, TOLP)
                       /\ Close(Add(y[3], st.g.v), Off(Minus(Off(st.e.v), st.f.v)), TOLP)
=============================================================================
