------------------------------- MODULE Replay -------------------------------
(* One optimisation under an arbitrary scheduler: a generator of random       *)
(* choices that only the main thread may use, and workers which evaluate the  *)
(* individuals of a generation in any order and at any speed.  The outcome    *)
(* has to be a function of the seed.  With SHARED, workers draw from the      *)
(* generator too - the design must then lose the property.                    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS SEEDS, POP, GENS, WORKERS, SHARED
VARIABLES seed, rng, gen, pop, todo, busy, out
vars == <<seed, rng, gen, pop, todo, busy, out>>
Draw(x) == (x * 5 + 3) % 32
RECURSIVE Draws(_, _)
Draws(x, n) == IF n = 0 THEN x ELSE Draws(Draw(x), n - 1)
Fit(g) == (g * g + 7) % 13
NoFit == -1
Fresh(x) == [i \in 1..POP |-> [g |-> Draws(x, i), f |-> NoFit]]
Init == /\ seed \in SEEDS /\ gen = 0 /\ out = <<>>
        /\ pop = Fresh(seed) /\ rng = Draws(seed, POP) /\ todo = 1..POP /\ busy = [w \in WORKERS |-> 0]
Take(w) == /\ busy[w] = 0 /\ todo # {}
           /\ \E i \in todo : busy' = [busy EXCEPT ![w] = i] /\ todo' = todo \ {i}
           /\ UNCHANGED <<seed, rng, gen, pop, out>>
Finish(w) == /\ busy[w] # 0
             /\ pop' = [pop EXCEPT ![busy[w]].f = IF SHARED THEN Fit(pop[busy[w]].g + rng) ELSE Fit(pop[busy[w]].g)]
             /\ rng' = IF SHARED THEN Draw(rng) ELSE rng
             /\ busy' = [busy EXCEPT ![w] = 0] /\ UNCHANGED <<seed, gen, todo, out>>
Idle == \A w \in WORKERS : busy[w] = 0
Best == CHOOSE i \in 1..POP : \A j \in 1..POP : pop[i].f > pop[j].f \/ (pop[i].f = pop[j].f /\ i <= j)
Breed == /\ todo = {} /\ Idle /\ gen <= GENS
         /\ out' = Append(out, pop[Best])
         /\ pop' = [i \in 1..POP |-> IF i = 1 THEN pop[Best] ELSE [g |-> Draws(rng, i), f |-> NoFit]]
         /\ rng' = Draws(rng, POP) /\ gen' = gen + 1 /\ todo' = (IF gen = GENS THEN {} ELSE 1..POP)
         /\ UNCHANGED <<seed, busy>>
Next == (\E w \in WORKERS : Take(w) \/ Finish(w)) \/ Breed
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
----------------------------------------------------------------------------
\* The outcome of the same seed with everything done one after the other.
RECURSIVE Alone(_, _, _)
Alone(x, best, g) ==
  LET p == [i \in 1..POP |-> IF i = 1 /\ best # <<>> THEN best[1] ELSE [g |-> Draws(x, i), f |-> Fit(Draws(x, i))]]
      b == CHOOSE i \in 1..POP : \A j \in 1..POP : p[i].f > p[j].f \/ (p[i].f = p[j].f /\ i <= j)
  IN  <<p[b]>> \o (IF g = GENS THEN <<>> ELSE Alone(Draws(x, POP), <<p[b]>>, g + 1))
Reproducible == \A i \in DOMAIN out : out[i] = Alone(seed, <<>>, 0)[i]
Ends == <>(Len(out) = GENS + 1)
=============================================================================
