------------------------------ MODULE Genetic ------------------------------
(* The evolutionary loop: what selection, variation, evaluation and           *)
(* reinsertion may do with a population, and what is reported about it.       *)
(* An individual is [g |-> genes, f |-> fitness]; fitness None: not evaluated.*)
EXTENDS Arith, Sequences, FiniteSets
None == -1
Cnt(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SubBag(s, t) == \A i \in DOMAIN s : Cnt(s, s[i]) <= Cnt(t, s[i])
SameBag(s, t) == Len(s) = Len(t) /\ SubBag(s, t)
Desc(s) == \A i \in 1..(Len(s) - 1) : s[i].f >= s[i + 1].f
Genes(s) == [i \in DOMAIN s |-> s[i].g]
Permille(n, rate) == FloorSet(n * rate, 1000, FALSE)
----------------------------------------------------------------------------
(* Selection: `par` is sorted, best first. *)
EliteSelected(par, sel, rate, shuffled) ==
  \E k \in Permille(Len(par), rate) :
    /\ Len(sel) = k
    /\ IF shuffled THEN SameBag(sel, SubSeq(par, 1, k)) ELSE sel = SubSeq(par, 1, k)
NotBetter(par, x) == Cardinality({i \in DOMAIN par : par[i].f <= x.f})
TourSelected(par, sel, rate, trate) ==
  /\ \E k \in Permille(Len(par), rate) : Len(sel) = k
  /\ \E t \in Permille(Len(par), trate) :
       \A i \in DOMAIN sel : (\E j \in DOMAIN par : par[j] = sel[i]) /\ NotBetter(par, sel[i]) >= Max2(t, 1)
RandSelected(par, sel, rate, Valid(_)) ==
  /\ \E k \in Permille(Len(par), rate) : Len(sel) = k
  /\ \A i \in DOMAIN sel : Valid(sel[i].g) /\ sel[i].f = None
----------------------------------------------------------------------------
(* Variation of one pair, of one chromosome. *)
Crossed(a, b, a2, b2, mix) ==
  \A i \in DOMAIN a :
    \/ mix < 1000 /\ a2[i] = a[i] /\ b2[i] = b[i]
    \/ mix > 0 /\ a2[i] = b[i] /\ b2[i] = a[i]
\* `ix`: the genes that were drawn for mutation, in order.
Mutated(a, a2, ix, mut, Valid(_)) ==
  /\ \A i \in DOMAIN a : (\A k \in DOMAIN ix : ix[k] # i) => a2[i] = a[i]
  /\ \A k \in 1..(Len(ix) - 1) : ix[k] < ix[k + 1]
  /\ \A k \in DOMAIN ix : ix[k] \in DOMAIN a
  /\ Valid(a2)
  /\ mut = 0 => ix = <<>>
  /\ mut = 1000 => Len(ix) = Len(a)
\* Slots (positions) of the k-th pairing among n offspring; an odd one out pairs with the first.
Pairing(n, k) == IF 2 * k = n + 1 THEN (IF n = 1 THEN <<1>> ELSE <<n, 1>>) ELSE <<2 * k - 1, 2 * k>>
Pairings(n) == (n + 1) \div 2
----------------------------------------------------------------------------
(* Reinsertion: parents and offspring sorted, best first. *)
EliteReinserted(par, off, pop, n, grate, Valid(_)) ==
  LET diff == n - Len(off) IN
  \E k \in Permille(diff, grate) :
    LET new == SelectSeq(pop, LAMBDA x : x.f = None)
        old == SelectSeq(pop, LAMBDA x : x.f # None)
    IN  /\ Len(new) = k /\ \A i \in DOMAIN new : Valid(new[i].g)
        /\ SameBag(old, off \o SubSeq(par, 1, diff - k))
FitnessReinserted(par, off, pop, n) == pop = SubSeq(off, 1, n)
PureReinserted(par, off, pop) == pop = off
----------------------------------------------------------------------------
(* The hall of fame reported about a population. *)
HallOfFame(h, pop, size) ==
  /\ Len(h) = Min2(size, Len(pop))
  /\ Desc(h) /\ SubBag(h, pop)
  /\ \A i \in DOMAIN pop : pop[i].f > h[Len(h)].f => Cnt(h, pop[i]) = Cnt(pop, pop[i])
Best(s) == CHOOSE f \in {s[i].f : i \in DOMAIN s} : \A i \in DOMAIN s : s[i].f <= f
=============================================================================
