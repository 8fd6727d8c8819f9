----------------------------- MODULE Chromosome -----------------------------
(* Parameter sets as trees.  A node is a struct (nested nodes first, then     *)
(* plain fields), an enum (a variant tag plus the variant's content) or the   *)
(* trader's interval choice.  Genes are numbered from 0 in that order; the    *)
(* first gene of an enum is the variant as a whole.                           *)
(* A context c pins parts: {"type":"None"} pins nothing below it; otherwise   *)
(* each field carries [p |-> 0/1, v |-> pinned value].                        *)
EXTENDS Arith, Sequences, FiniteSets
Struct(ch, fl) == [k |-> "struct", ch |-> ch, fl |-> fl]
Enum(vs) == [k |-> "enum", vs |-> vs]
Trader == [k |-> "trader"]
Num(lo, hi) == [k |-> "int", lo |-> lo, hi |-> hi]
ZeroOr(lo, hi) == [k |-> "zero", lo |-> lo, hi |-> hi]
Flag == [k |-> "flag"]
Word(s) == [k |-> "word", s |-> s]
Absent == [k |-> "absent"]
MA(lo, hi) == [k |-> "ma", lo |-> lo, hi |-> hi]
\* n moving averages with strictly growing periods, the shortest from 1, the longest up to hi.
MAs(n, hi) == [k |-> "mas", n |-> n, hi |-> hi]
Ints(n, lo, hi) == [k |-> "ints", n |-> n, lo |-> lo, hi |-> hi]
----------------------------------------------------------------------------
RECURSIVE Width(_), WidthCh(_, _), WidthVs(_, _)
WidthCh(ch, j) == IF j > Len(ch) THEN 0 ELSE Width(ch[j][2]) + WidthCh(ch, j + 1)
WidthVs(vs, j) == IF j > Len(vs) THEN 0 ELSE Max2(Width(vs[j][2]), WidthVs(vs, j + 1))
Width(S) == IF S.k = "struct" THEN WidthCh(S.ch, 1) + Len(S.fl)
            ELSE IF S.k = "enum" THEN 1 + WidthVs(S.vs, 1) ELSE 1
Variant(S, tag) == S.vs[CHOOSE j \in DOMAIN S.vs : S.vs[j][1] = tag][2]
Tags(S) == {S.vs[j][1] : j \in DOMAIN S.vs}
Free(c) == "type" \in DOMAIN c /\ c.type = "None"
Sub(c, f) == IF Free(c) THEN c ELSE c[f]
Nothing == [type |-> "None"]
VCtx(c, tag) == IF Free(c) \/ c.type # tag THEN Nothing ELSE c
----------------------------------------------------------------------------
MATypes == {"Alma", "Dema", "Ema", "Ema2", "Kama", "Sma", "Smma"}
MAOk(v, lo, hi) ==
  /\ v.type \in MATypes /\ v.period \in lo..hi
  /\ DOMAIN v = CASE v.type = "Alma" -> {"type", "period", "offset", "sigma"}
                  [] v.type = "Ema" -> {"type", "period", "smoothing"}
                  [] OTHER -> {"type", "period"}
  /\ v.type = "Alma" => v.offset = 850000 /\ v.sigma = -1
  /\ v.type = "Ema" => v.smoothing = -1
Leaf(s, v) ==
  CASE s.k = "int" -> v \in s.lo..s.hi
    [] s.k = "zero" -> v = 0 \/ v \in s.lo..s.hi
    [] s.k = "flag" -> v \in BOOLEAN
    [] s.k = "word" -> v \in s.s
    [] s.k = "absent" -> v = -1
    [] s.k = "ma" -> MAOk(v, s.lo, s.hi)
    [] s.k = "mas" -> /\ Len(v) = s.n /\ \A j \in 1..s.n : MAOk(v[j], 1, s.hi)
                      /\ \A j \in 1..(s.n - 1) : v[j].period < v[j + 1].period
    [] s.k = "ints" -> /\ Len(v) = s.n /\ \A j \in 1..s.n : v[j] \in s.lo..s.hi
                       /\ \A j \in 1..(s.n - 1) : v[j] < v[j + 1]
\* Reals are recorded in millionths: two different ones may coincide after rounding.
Field(s, v, c, f) == IF ~Free(c) /\ c[f].p = 1 THEN v = c[f].v ELSE Leaf(s, v)
Names(S) == {S.ch[j][1] : j \in DOMAIN S.ch} \cup {S.fl[j][1] : j \in DOMAIN S.fl}
RECURSIVE Valid(_, _, _)
Valid(S, v, c) ==
  CASE S.k = "struct" ->
         /\ DOMAIN v \ {"type"} = Names(S)
         /\ \A j \in DOMAIN S.ch : Valid(S.ch[j][2], v[S.ch[j][1]], Sub(c, S.ch[j][1]))
         /\ \A j \in DOMAIN S.fl : Field(S.fl[j][2], v[S.fl[j][1]], c, S.fl[j][1])
    [] S.k = "enum" -> v.type \in Tags(S) /\ (Free(c) \/ c.type = v.type) /\ Valid(Variant(S, v.type), v, VCtx(c, v.type))
    [] S.k = "trader" -> DOMAIN v = {"interval"} /\ \E j \in DOMAIN c.intervals : c.intervals[j] = v.interval
----------------------------------------------------------------------------
RECURSIVE Cross(_, _, _, _), CrossAt(_, _, _, _, _)
Swap(a, b, f) == << [a EXCEPT ![f] = b[f]], [b EXCEPT ![f] = a[f]] >>
CrossAt(S, a, b, i, j) ==
  IF j > Len(S.ch) THEN Swap(a, b, S.fl[i + 1][1])
  ELSE LET f == S.ch[j][1] N == S.ch[j][2] IN
       IF i < Width(N) THEN LET p == Cross(N, a[f], b[f], i) IN << [a EXCEPT ![f] = p[1]], [b EXCEPT ![f] = p[2]] >>
       ELSE CrossAt(S, a, b, i - Width(N), j + 1)
\* What crossing at gene i makes of a and b.
Cross(S, a, b, i) ==
  CASE S.k = "struct" -> CrossAt(S, a, b, i, 1)
    [] S.k = "enum" -> IF i = 0 THEN <<b, a>>
                       ELSE IF a.type = b.type /\ i - 1 < Width(Variant(S, a.type)) THEN Cross(Variant(S, a.type), a, b, i - 1)
                       ELSE <<a, b>>
    [] S.k = "trader" -> Swap(a, b, "interval")
RECURSIVE Mutated(_, _, _, _), MutatedAt(_, _, _, _, _)
MutatedAt(S, a, i, a2, j) ==
  IF j > Len(S.ch)
  THEN LET f == S.fl[i + 1][1] IN f \in DOMAIN a2 /\ a2 = [a EXCEPT ![f] = a2[f]]
  ELSE LET f == S.ch[j][1] N == S.ch[j][2] IN
       IF i < Width(N) THEN f \in DOMAIN a2 /\ a2 = [a EXCEPT ![f] = a2[f]] /\ Mutated(N, a[f], i, a2[f])
       ELSE MutatedAt(S, a, i - Width(N), a2, j + 1)
\* May mutating a at gene i give a2?  (That a2 is valid again is Valid's business.)
Mutated(S, a, i, a2) ==
  CASE S.k = "struct" -> MutatedAt(S, a, i, a2, 1)
    [] S.k = "enum" -> IF i = 0 THEN a2.type \in Tags(S)
                       ELSE IF i - 1 < Width(Variant(S, a.type)) THEN a2.type = a.type /\ Mutated(Variant(S, a.type), a, i - 1, a2)
                       ELSE a2 = a
    [] S.k = "trader" -> DOMAIN a2 = {"interval"}
----------------------------------------------------------------------------
(* Everything generation should be able to reach: <<path, words>>, <<path, lo, hi>>. *)
Under(f, S) == {[x EXCEPT !.at = <<f>> \o x.at] : x \in S}
LeafWords(s) == CASE s.k = "flag" -> {[at |-> <<>>, set |-> {"yes", "no"}]}
                  [] s.k = "word" -> {[at |-> <<>>, set |-> s.s]}
                  [] s.k = "ma" -> {[at |-> <<>>, set |-> MATypes]}
                  [] s.k = "mas" -> {[at |-> <<j>>, set |-> MATypes] : j \in {<<"1", "2", "3">>[i] : i \in 1..s.n}}
                  [] OTHER -> {}
LeafRanges(s) == CASE s.k \in {"int", "ma"} -> {[at |-> <<>>, lo |-> s.lo, hi |-> s.hi, even |-> TRUE]}
                   [] s.k = "zero" -> {[at |-> <<>>, lo |-> 0, hi |-> s.hi, even |-> TRUE]}
                   [] s.k = "absent" -> {[at |-> <<>>, lo |-> -1, hi |-> -1, even |-> TRUE]}
                   [] s.k = "mas" -> {[at |-> <<<<"1", "2", "3">>[i]>>, lo |-> i, hi |-> s.hi - s.n + i, even |-> FALSE] : i \in 1..s.n}
                   [] s.k = "ints" -> {[at |-> <<<<"1", "2", "3">>[i]>>, lo |-> s.lo, hi |-> s.hi, even |-> FALSE] : i \in 1..s.n}
                   [] OTHER -> {}
RECURSIVE Words(_), Ranges(_)
Words(S) ==
  IF S.k = "struct" THEN UNION ({Under(S.ch[j][1], Words(S.ch[j][2])) : j \in DOMAIN S.ch}
                                \cup {Under(S.fl[j][1], LeafWords(S.fl[j][2])) : j \in DOMAIN S.fl})
  ELSE IF S.k = "enum" THEN {[at |-> <<>>, set |-> Tags(S)]}
                            \cup UNION {Under(S.vs[j][1], Words(S.vs[j][2])) : j \in DOMAIN S.vs}
  ELSE {}
Ranges(S) ==
  IF S.k = "struct" THEN UNION ({Under(S.ch[j][1], Ranges(S.ch[j][2])) : j \in DOMAIN S.ch}
                                \cup {Under(S.fl[j][1], LeafRanges(S.fl[j][2])) : j \in DOMAIN S.fl})
  ELSE IF S.k = "enum" THEN UNION {Under(S.vs[j][1], Ranges(S.vs[j][2])) : j \in DOMAIN S.vs}
  ELSE {}
=============================================================================
