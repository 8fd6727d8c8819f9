----------------------------- MODULE ListingMC -----------------------------
(* The listing against its direct meaning, over all small optimisations.      *)
EXTENDS Listing, FiniteSets
CONSTANTS GENS, FAME, HIGH
FITS == None..HIGH
VARIABLE gens
Init == gens = <<>>
Ranked(f) == \A i \in 1..(Len(f) - 1) : f[i] >= f[i + 1]
Next == Len(gens) < GENS /\ \E f \in [1..FAME -> FITS] : Ranked(f) /\ gens' = Append(gens, f)
Spec == Init /\ [][Next]_gens
L == Listed(gens)
Exactly == L = Folded(gens)
On(i) == \E k \in DOMAIN L : L[k] = i - 1
\* Without missing fitness, a generation is shown when some rank beats all before.
Meaning == (\A i \in DOMAIN gens : \A k \in 1..FAME : gens[i][k] # None) =>
  \A i \in DOMAIN gens : On(i) <=> \E k \in 1..FAME : \A j \in 1..(i - 1) : gens[j][k] < gens[i][k]
FirstShown == gens # <<>> => On(1)
Increasing == \A i \in 1..(Len(L) - 1) : L[i] < L[i + 1]
\* The best fitness of the whole optimisation is on show.
BestShown == gens = <<>> \/ \E i \in DOMAIN gens : On(i) /\ \A j \in DOMAIN gens : gens[j][1] <= gens[i][1]
=============================================================================
