---------------------------- MODULE ChromosomeMC ----------------------------
(* The addressing scheme over every pair of values of small parameter trees.  *)
EXTENDS Chromosome, TLC
CONSTANT TREES
Two == Struct(<<>>, << <<"a", Num(0, 1)>>, <<"b", Num(0, 1)>> >>)
One == Struct(<<>>, << <<"z", Num(0, 1)>> >>)
Void == Struct(<<>>, <<>>)
Pick == Enum(<< <<"One", One>>, <<"Void", Void>>, <<"Two", Two>> >>)
Tree(t) == CASE t = "flat" -> Two
             [] t = "nest" -> Struct(<< <<"l", Two>>, <<"n", Void>>, <<"r", One>> >>, << <<"c", Num(0, 1)>>, <<"d", Num(0, 1)>> >>)
             [] t = "pick" -> Pick
             [] t = "deep" -> Struct(<< <<"p", Pick>>, <<"q", Pick>> >>, << <<"f", Num(0, 1)>> >>)
             [] t = "over" -> Enum(<< <<"In", Struct(<< <<"p", Pick>> >>, << <<"g", Num(0, 1)>> >>)>>, <<"Two", Two>> >>)
\* All values of a tree, built as functions from names.
RECURSIVE Values(_)
FieldVals(s) == s.lo..s.hi
Merge(a, b) == [x \in (DOMAIN a) \cup (DOMAIN b) |-> IF x \in DOMAIN a THEN a[x] ELSE b[x]]
Empty == [x \in {} |-> 0]
RECURSIVE ChVals(_, _), FlVals(_, _)
ChVals(ch, j) == IF j > Len(ch) THEN {Empty} ELSE {Merge(ch[j][1] :> v, w) : v \in Values(ch[j][2]), w \in ChVals(ch, j + 1)}
FlVals(fl, j) == IF j > Len(fl) THEN {Empty} ELSE {Merge(fl[j][1] :> v, w) : v \in FieldVals(fl[j][2]), w \in FlVals(fl, j + 1)}
Values(S) == IF S.k = "struct" THEN {Merge(c, f) : c \in ChVals(S.ch, 1), f \in FlVals(S.fl, 1)}
             ELSE UNION {{Merge("type" :> S.vs[j][1], v) : v \in Values(S.vs[j][2])} : j \in DOMAIN S.vs}
VARIABLES t, a, b, i, done
vars == <<t, a, b, i, done>>
Init == t \in TREES /\ a \in Values(Tree(t)) /\ b \in Values(Tree(t)) /\ i \in 0..(Width(Tree(t)) - 1) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<t, i>> /\ LET p == Cross(Tree(t), a, b, i) IN a' = p[1] /\ b' = p[2]
Spec == Init /\ [][Next]_vars
S == Tree(t)
P == Cross(S, a, b, i)
Closed == Valid(S, a, Nothing) /\ Valid(S, b, Nothing)
Involution == Cross(S, P[1], P[2], i) = <<a, b>>
Symmetric == Cross(S, b, a, i) = <<P[2], P[1]>>
\* Mutation may turn a into exactly the values that differ from it at gene i only.
MutationLocal == Mutated(S, a, i, b) <=> P[1] = b
\* Leaves under a path of field names; how deep in enums they lie.
RECURSIVE Paths(_, _)
Paths(N, v) ==
  IF N.k = "struct" THEN {[p |-> <<N.fl[j][1]>>, d |-> 0] : j \in DOMAIN N.fl}
       \cup UNION {{[p |-> <<N.ch[j][1]>> \o x.p, d |-> x.d] : x \in Paths(N.ch[j][2], v[N.ch[j][1]])} : j \in DOMAIN N.ch}
  ELSE {[x EXCEPT !.d = @ + 1] : x \in Paths(Variant(N, v.type), v)}
RECURSIVE Get(_, _)
Get(v, p) == IF p = <<>> THEN v ELSE Get(v[p[1]], Tail(p))
\* Every leaf belongs to exactly one gene besides the variants around it.
RECURSIVE SameShape(_, _, _)
SameShape(N, v, w) == IF N.k = "struct" THEN \A j \in DOMAIN N.ch : SameShape(N.ch[j][2], v[N.ch[j][1]], w[N.ch[j][1]])
                      ELSE v.type = w.type /\ SameShape(Variant(N, v.type), v, w)
Partition == SameShape(S, a, b) =>
  \A x \in Paths(S, a) : Get(a, x.p) # Get(b, x.p) =>
    Cardinality({k \in 0..(Width(S) - 1) : Get(Cross(S, a, b, k)[1], x.p) = Get(b, x.p)}) = 1 + x.d
=============================================================================
