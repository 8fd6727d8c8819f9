----------------------------- MODULE GeneticTV -----------------------------
(* Recorded evolutions of a four-gene toy chromosome by the real algorithm    *)
(* and operators, against the loop above.                                     *)
(* ASPECTS: life, sel, vary, ins, fit.                                        *)
EXTENDS Genetic, Json, IOUtils
CONSTANT ASPECTS
\* (compared with TRUE so that TLC evaluates it as one predicate)
Chk(a, c) == (a \notin ASPECTS \/ c) = TRUE
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, l, ph, pop, off, k, todo, nr, hofs
vars == <<r, l, ph, pop, off, k, todo, nr, hofs>>
C == Runs[r].cfg
Ev == Runs[r].ev
e == Ev[l]
Is(x) == l <= Len(Ev) /\ e.e = x
Step == l' = l + 1 /\ r' = r
Valid(g) == Len(g) = C.genes /\ \A i \in 1..C.genes : g[i] \in 0..(C.vals - 1)
F(g) == (7 * g[1] + 5 * g[2] + 3 * g[3] + 2 * g[4] + g[1] * g[4]) % C.mod
TVInit == r \in DOMAIN Runs /\ l = 1 /\ ph = (IF Runs[r].kind = "rates" THEN "rates" ELSE "start")
          /\ pop = <<>> /\ off = <<>> /\ k = 1 /\ todo = <<>> /\ nr = 0 /\ hofs = <<>>
DoFirst == /\ Is("eval") /\ ph = "start" /\ Step
           /\ Chk("life", Len(e.pop) = C.n) /\ Chk("vary", \A i \in DOMAIN e.pop : Valid(e.pop[i].g))
           /\ pop' = e.pop /\ ph' = "rep" /\ UNCHANGED <<off, k, todo, nr, hofs>>
DoReport == /\ Is("report") /\ ph = "rep" /\ Step
            /\ Chk("life", e.nr = nr /\ HallOfFame(e.hof, pop, C.hof))
            /\ Chk("fit", \A i \in DOMAIN e.hof : e.hof[i].f = F(e.hof[i].g))
            /\ Chk("ins", nr > 0 /\ C.rein = "elite" /\ C.grate < 1000 => e.hof[1].f >= hofs[nr][1].f)
            /\ nr' = nr + 1 /\ hofs' = Append(hofs, e.hof) /\ ph' = "sel" /\ UNCHANGED <<pop, off, k, todo>>
DoSelect == /\ Is("select") /\ ph = "sel" /\ Step
            /\ Chk("life", nr <= C.gens)
            /\ Chk("life", SameBag(e.par, pop) /\ Desc(e.par))
            /\ Chk("sel", e.had = 0 /\ CASE C.sel = "elite" -> EliteSelected(e.par, e.sel, C.srate, C.shuffle = 1)
                                        [] C.sel = "tour" -> TourSelected(e.par, e.sel, C.srate, C.trate)
                                        [] OTHER -> RandSelected(e.par, e.sel, C.srate, Valid))
            /\ pop' = e.par /\ off' = e.sel /\ k' = 1 /\ ph' = "breed"
            /\ todo' = (IF Len(e.sel) = 1 THEN <<1>> ELSE <<>>) /\ UNCHANGED <<nr, hofs>>
Pair == Pairing(Len(off), k)
DoCross == /\ Is("cross") /\ ph = "breed" /\ Step
           /\ IF "vary" \notin ASPECTS THEN UNCHANGED <<off, k, todo>>
              ELSE /\ todo = <<>> /\ k <= Pairings(Len(off)) /\ Len(off) > 1
                   /\ e.a = off[Pair[1]].g /\ e.b = off[Pair[2]].g
                   /\ Crossed(e.a, e.b, e.a2, e.b2, C.mix) = TRUE
                   /\ off' = [off EXCEPT ![Pair[1]].g = e.a2, ![Pair[2]].g = e.b2]
                   /\ k' = k + 1 /\ todo' = Pair
           /\ UNCHANGED <<ph, pop, nr, hofs>>
DoMutate == /\ Is("mutate") /\ ph = "breed" /\ Step
            /\ IF "vary" \notin ASPECTS THEN UNCHANGED <<off, k, todo>>
               ELSE /\ todo # <<>>
                    /\ e.a = off[todo[1]].g /\ Mutated(e.a, e.a2, e.ix, C.mut, Valid) = TRUE
                    /\ off' = [off EXCEPT ![todo[1]].g = e.a2]
                    /\ todo' = Tail(todo) /\ k' = (IF Len(off) = 1 THEN 2 ELSE k)
            /\ UNCHANGED <<ph, pop, nr, hofs>>
DoEvaluate == /\ Is("eval") /\ ph = "breed" /\ Step
              /\ Chk("vary", todo = <<>> /\ k > Pairings(Len(off)) /\ SameBag(Genes(e.pop), Genes(off)))
              /\ off' = e.pop /\ ph' = "ins" /\ UNCHANGED <<pop, k, todo, nr, hofs>>
DoReinsert == /\ Is("reinsert") /\ ph = "ins" /\ Step
              /\ Chk("ins", SameBag(e.par, pop) /\ Desc(e.par) /\ SameBag(e.off, off) /\ Desc(e.off) /\ e.n = C.n)
              /\ Chk("ins", CASE C.rein = "elite" -> EliteReinserted(e.par, e.off, e.pop, C.n, C.grate, Valid)
                              [] C.rein = "fitness" -> FitnessReinserted(e.par, e.off, e.pop, C.n)
                              [] OTHER -> PureReinserted(e.par, e.off, e.pop))
              /\ Chk("life", Len(e.pop) = C.n)
              /\ pop' = e.pop /\ ph' = "rep" /\ UNCHANGED <<off, k, todo, nr, hofs>>
\* Whoever was generated during reinsertion still has to be evaluated.
DoLate == /\ Is("eval") /\ ph = "rep" /\ Step
          /\ Chk("ins", SubBag(Genes(e.pop), Genes(pop)))
          /\ pop' = [i \in DOMAIN pop |-> IF \E j \in DOMAIN e.pop : e.pop[j].g = pop[i].g
                                          THEN e.pop[CHOOSE j \in DOMAIN e.pop : e.pop[j].g = pop[i].g] ELSE pop[i]]
          /\ UNCHANGED <<ph, off, k, todo, nr, hofs>>
DoEnd == /\ Is("end") /\ ph = "sel" /\ Step
         /\ Chk("life", l = Len(Ev) /\ nr = C.gens + 1 /\ e.hofs = hofs /\ e.seed = C.seed)
         /\ ph' = "end" /\ UNCHANGED <<pop, off, k, todo, nr, hofs>>
\* Six standard deviations around the expected number of hits.
Variance(total, rate) == ((((total * rate) \div 1000) * (1000 - rate)) \div 1000)
Likely(hit, total, rate) ==
  LET d == Abs(hit - ((total * rate) \div 1000)) IN
  \/ rate = 0 /\ hit = 0
  \/ rate = 1000 /\ hit = total
  \/ rate \in 1..999 /\ d * d <= 36 * Variance(total, rate)
\* Two independent events of the same rate coincide at its square.
Coincide(hit, total, rate) ==
  LET x == (((total * rate) \div 1000) * rate) \div 1000 d == Abs(hit - x) IN
  \/ rate = 0 /\ hit = 0
  \/ rate = 1000 /\ hit = total
  \/ rate \in 1..999 /\ d * d <= 36 * (x + 1)
Independent(t, rate) ==
  /\ \A i \in DOMAIN t.each : t.each[i][2] > 800 /\ Likely(t.each[i][1], t.each[i][2], rate)
  /\ \A i \in DOMAIN t.two : t.two[i][2] > 800 /\ Coincide(t.two[i][1], t.two[i][2], rate)
DoRates == /\ Is("rates") /\ ph = "rates" /\ Step
           /\ Chk("vary", Independent(e.cross, C.mix) /\ Independent(e.mutate, C.mut))
           /\ ph' = "end" /\ UNCHANGED <<pop, off, k, todo, nr, hofs>>
\* Groups are drawn evenly, so that rank i of n wins when the others of its group are among the n - i worse ones; a shuffle
\* is even as well.  In 1/1000000.
RECURSIVE Choose(_, _)
Choose(n, j) == IF j = 0 THEN 1 ELSE IF n < j THEN 0 ELSE Choose(n - 1, j - 1) + Choose(n - 1, j)
Chance(x, i) == IF x.of = "tour" THEN (1000000 * Choose(x.n - i, x.k - 1)) \div Choose(x.n, x.k)
                ELSE IF i <= x.k THEN 1000000 \div x.k ELSE 0
RECURSIVE Squares(_, _)
Squares(x, i) == IF i > x.n THEN 0 ELSE ((Chance(x, i) \div 1000) * (Chance(x, i) \div 1000)) + Squares(x, i + 1)
\* Within six standard deviations of the expected number.
Expected(hits, times, chance) ==
  LET m == (times * (chance \div 100)) \div 10000  d == Abs(hits - m) IN
  IF chance = 0 THEN hits = 0 ELSE IF chance = 1000000 THEN hits = times ELSE d * d <= 36 * (m + 1)
Evenly(x) == /\ \A s \in DOMAIN x.at : \A i \in 1..x.n : Expected(x.at[s][i], x.times, Chance(x, i))
             /\ IF x.of = "tour" THEN Expected(x.alike, x.times, Squares(x, 1)) ELSE x.alike = 0
DoDraws == /\ Is("draws") /\ ph = "rates" /\ Step
           /\ Chk("sel", Evenly(e))
           /\ ph' = "end" /\ UNCHANGED <<pop, off, k, todo, nr, hofs>>
Finished == l > Len(Ev) /\ UNCHANGED vars
TVNext == DoFirst \/ DoReport \/ DoSelect \/ DoCross \/ DoMutate \/ DoEvaluate \/ DoReinsert \/ DoLate \/ DoEnd
          \/ DoRates \/ DoDraws \/ Finished
TVSpec == TVInit /\ [][TVNext]_vars
=============================================================================
