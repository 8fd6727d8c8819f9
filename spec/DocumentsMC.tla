---------------------------- MODULE DocumentsMC ----------------------------
(* Documents edited step by step, starting from one that is read: dropping    *)
(* fields, adding unknown ones, reordering, pinning and damaging.             *)
EXTENDS Documents
CONSTANTS EDITS
VARIABLES t, d, n, hurt
vars == <<t, d, n, hurt>>
B(v) == Doc("b", v)
R(f) == [Doc("f", f) EXCEPT !.f = f]
Period == Obj(<<"type", "period">>, <<Text("Ema"), Nat64("3")>>)
Seeds == [trading |-> Obj(<<"strategy", "trader", "stop_loss", "take_profit">>,
            <<Obj(<<"type", "sig", "mid_trend_policy">>, <<Text("Sig"), Obj(<<"type", "ma">>, <<Text("SingleMA"), Period>>), Text("Ignore")>>),
              Obj(<<"interval">>, <<Text("1h")>>), Obj(<<"type", "threshold", "trail">>, <<Text("Legacy"), R("1e-1"), B("true")>>), Obj(<<"type">>, <<Text("Noop")>>)>>),
          context |-> Obj(<<"stop_loss", "trader">>, <<Obj(<<"type", "trail">>, <<Text("Legacy"), B("false")>>), Obj(<<"intervals">>, <<Arr(<<Nat64("60000"), Text("1d")>>)>>)>>),
          candles |-> Arr(<<Null, Obj(<<"time", "open", "high", "low", "close", "volume">>, <<Text("2019-01-01"), R("1e0"), R("2e0"), R("1e0"), Nat64("2"), R("0e0")>>)>>)]
Init == t \in DOMAIN Seeds /\ d = Seeds[t] /\ n = 0 /\ hurt = FALSE
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
\* All documents one edit away, anywhere in the tree.
RECURSIVE Edits(_)
Edits(x) ==
  (IF x.j = "o" THEN {Obj(Without(x.k, i), Without(x.x, i)) : i \in DOMAIN x.k}
                     \cup {Obj(Append(x.k, "unheard"), Append(x.x, Null)) : z \in {i \in {1} : ~Has(x, "unheard")}}
                     \cup (IF Len(x.k) > 1 THEN {Obj(Tail(x.k) \o <<x.k[1]>>, Tail(x.x) \o <<x.x[1]>>)} ELSE {})
                     \cup {Doc("b", "true")}
   ELSE IF x.j = "a" THEN {Arr(Without(x.x, i)) : i \in DOMAIN x.x} ELSE {Doc("b", "true"), Null, Text("nope"), Nat64("7")})
  \cup UNION {{[x EXCEPT !.x[i] = y] : y \in Edits(x.x[i])} : i \in DOMAIN x.x}
Edit == n < EDITS /\ n' = n + 1 /\ t' = t /\ \E y \in Edits(d) : d' = y /\ hurt' = ~Reads(Root(t), y)
Next == Edit
Spec == Init /\ [][Next]_vars
S == Root(t)
Start == n = 0 => Reads(S, d)
C == Canon(S, d)
\* What was read is written as a document that is read as the same.
Fixpoint == Reads(S, d) => Reads(S, C) /\ Alike(C, C) /\ Canon(S, C) = C
Rotate(x) == IF x.j = "o" /\ Len(x.k) > 1 THEN Obj(Tail(x.k) \o <<x.k[1]>>, Tail(x.x) \o <<x.x[1]>>) ELSE x
OrderFree == Reads(S, d) = Reads(S, Rotate(d)) /\ (Reads(S, d) => Alike(Canon(S, Rotate(d)), C))
\* Unknown fields do not matter.
Stranger == d.j = "o" => LET y == Obj(Append(d.k, "else"), Append(d.x, Null)) IN Reads(S, y) = Reads(S, d) /\ (Reads(S, d) => Canon(S, y) = C)
\* Parameters are never made up: what a parameter set does not say is an error.
NothingMadeUp == (t = "trading" /\ Reads(S, d)) => \A f \in {"strategy", "trader", "stop_loss", "take_profit"} : Has(d, f)
\* A context may be silent about anything.
Silence == t = "context" => Reads(S, Obj(<<>>, <<>>)) /\ Canon(S, Obj(<<>>, <<>>)).x[4] = Obj(<<"type">>, <<Text("None")>>)
=============================================================================
