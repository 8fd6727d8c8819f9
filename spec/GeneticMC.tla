----------------------------- MODULE GeneticMC -----------------------------
(* The whole loop for every choice the randomness can make, small bounds.     *)
EXTENDS Genetic, TLC
CONSTANTS N, GENS, HOF, VALS, KINDS
\* kinds: <<selection, selection rate, reinsertion, generation rate, mix, mut>>
AllKinds == << <<"elite", 700, "elite", 0, 500, 0>>, <<"elite", 700, "elite", 500, 500, 500>>,
              <<"shuffle", 400, "elite", 500, 500, 500>>, <<"tour", 700, "elite", 0, 500, 500>>,
              <<"tour", 1400, "fitness", 0, 500, 500>>, <<"elite", 1000, "pure", 0, 1000, 0>>,
              <<"rand", 1000, "pure", 0, 0, 1000>>, <<"tour", 700, "elite", 1000, 500, 500>> >>
VARIABLES cfg, ph, pop, off, k, todo, nr, hofs
vars == <<cfg, ph, pop, off, k, todo, nr, hofs>>
G == [1..2 -> VALS]
Tup(g) == <<g[1], g[2]>>
Chrom == {Tup(g) : g \in G}
Valid(g) == g \in Chrom
F(g) == (2 * g[1] + g[2]) % 3
Ind(g) == [g |-> g, f |-> F(g)]
Fresh(g) == [g |-> g, f |-> None]
Key(x) == x.f * 100 + x.g[1] * 10 + x.g[2]
\* One representative order: best first, ties in a fixed order.
RECURSIVE Sorted(_)
Sorted(s) == IF s = <<>> THEN <<>> ELSE
  LET i == CHOOSE i \in DOMAIN s : \A j \in DOMAIN s : Key(s[i]) >= Key(s[j])
  IN  <<s[i]>> \o Sorted(SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)))
Seqs(S, n) == [1..n -> S]
Evaluated(s) == Sorted([i \in DOMAIN s |-> Ind(s[i].g)])
Init == /\ cfg \in {AllKinds[i] : i \in KINDS} /\ ph = "rep" /\ off = <<>> /\ k = 1 /\ todo = <<>> /\ nr = 0 /\ hofs = <<>>
        /\ \E s \in Seqs(Chrom, N) : pop = Evaluated([i \in 1..N |-> Fresh(s[i])])
Report == /\ ph = "rep"
          /\ hofs' = Append(hofs, SubSeq(pop, 1, Min2(HOF, N)))
          /\ nr' = nr + 1 /\ ph' = IF nr = GENS THEN "end" ELSE "sel"
          /\ UNCHANGED <<cfg, pop, off, k, todo>>
Count(rate) == (N * rate) \div 1000
Select == /\ ph = "sel" /\ ph' = "breed" /\ k' = 1 /\ todo' = <<>>
          /\ \E s \in Seqs({pop[i] : i \in DOMAIN pop} \cup {Fresh(g) : g \in Chrom}, Count(cfg[2])) :
               /\ CASE cfg[1] = "elite" -> EliteSelected(pop, s, cfg[2], FALSE)
                    [] cfg[1] = "shuffle" -> EliteSelected(pop, s, cfg[2], TRUE)
                    [] cfg[1] = "tour" -> TourSelected(pop, s, cfg[2], 500)
                    [] OTHER -> RandSelected(pop, s, cfg[2], Valid)
               /\ off' = s
          /\ UNCHANGED <<cfg, pop, nr, hofs>>
Cross == /\ ph = "breed" /\ todo = <<>> /\ k <= Pairings(Len(off))
         /\ LET p == Pairing(Len(off), k) IN
              IF Len(p) = 1 THEN off' = off
              ELSE \E a2, b2 \in Chrom :
                     /\ Crossed(off[p[1]].g, off[p[2]].g, a2, b2, cfg[5])
                     /\ off' = [off EXCEPT ![p[1]].g = a2, ![p[2]].g = b2]
         /\ todo' = Pairing(Len(off), k) /\ k' = k + 1
         /\ UNCHANGED <<cfg, ph, pop, nr, hofs>>
Mutate == /\ ph = "breed" /\ todo # <<>>
          /\ \E ix \in {<<>>, <<1>>, <<2>>, <<1, 2>>} : \E a2 \in Chrom :
               Mutated(off[todo[1]].g, a2, ix, cfg[6], Valid) /\ off' = [off EXCEPT ![todo[1]].g = a2]
          /\ todo' = Tail(todo) /\ UNCHANGED <<cfg, ph, pop, k, nr, hofs>>
Evaluate == /\ ph = "breed" /\ todo = <<>> /\ k > Pairings(Len(off))
            /\ off' = Evaluated(off) /\ ph' = "ins" /\ UNCHANGED <<cfg, pop, k, todo, nr, hofs>>
New(n) == {<<>>} \cup UNION {Seqs({Fresh(g) : g \in Chrom}, i) : i \in 1..n}
Reinsert == /\ ph = "ins" /\ ph' = "rep"
            /\ IF cfg[3] = "elite"
               THEN \E new \in New(N - Len(off)) :
                      LET p == off \o SubSeq(pop, 1, N - Len(off) - Len(new)) \o new IN
                        EliteReinserted(pop, off, p, N, cfg[4], Valid) /\ pop' = Evaluated(p)
               ELSE IF cfg[3] = "fitness" THEN pop' = SubSeq(off, 1, N) ELSE pop' = off
            /\ off' = <<>> /\ k' = 1 /\ UNCHANGED <<cfg, todo, nr, hofs>>
Done == ph = "end" /\ UNCHANGED vars
Next == Report \/ Select \/ Cross \/ Mutate \/ Evaluate \/ Reinsert \/ Done
MCSpec == Init /\ [][Next]_vars /\ WF_vars(Next)
----------------------------------------------------------------------------
Size == Len(pop) = N
Ranked == Desc(pop) /\ \A i \in DOMAIN pop : pop[i].f = F(pop[i].g)
Fame == ph \in {"sel", "end"} => HallOfFame(hofs[Len(hofs)], pop, HOF)
Numbered == Len(hofs) = nr /\ nr <= GENS + 1
NeverWorse == cfg[3] = "elite" /\ cfg[4] < 1000 =>
  \A i \in 1..(Len(hofs) - 1) : hofs[i + 1][1].f >= hofs[i][1].f
\* Without mutation and fresh blood, no gene value is invented.
NothingInvented == cfg[6] = 0 /\ cfg[4] = 0 /\ cfg[1] # "rand" /\ off # <<>> =>
  \A i \in DOMAIN off, j \in 1..2 : \E p \in DOMAIN pop : pop[p].g[j] = off[i].g[j]
Finishes == <>(ph = "end" /\ nr = GENS + 1)
=============================================================================
