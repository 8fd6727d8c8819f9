----------------------------- MODULE ComposedMC -----------------------------
EXTENDS Composed
CONSTANT LEN
VARIABLE raw     \* screened inner advices so far
MCInit == /\ \E o \in {"none", "Enforce", "Prevent"}, p \in {"Current", "Ignore"}, k \in 0..2 :
               InitWith([osc |-> o, policy |-> p, level |-> k])
          /\ raw = <<>>
MCNext == /\ Len(raw) < LEN
          /\ \/ Warm /\ raw = <<>> /\ t < 2 /\ UNCHANGED raw
             \/ \E a \in Codes, ob, os \in BOOLEAN :
                  ~(ob /\ os) /\ Decide(a, ob, os) /\ raw' = Append(raw, Screen(a, ob, os))
MCSpec == MCInit /\ [][MCNext]_<<vars, raw>>
N == Len(raw)
\* A side is advised only if it is the current screened advice, seen long enough.
Faithful == N > 0 /\ advice \in {Long, Short} =>
  /\ raw[N] = advice
  /\ N > cfg.level /\ \A j \in (N - cfg.level)..N : raw[j] = advice
  /\ cfg.policy = "Ignore" => \E j \in 1..N : raw[j] # raw[1]
\* Without filters the advice is the screened inner advice.
Transparent == N > 0 /\ cfg.policy = "Current" /\ cfg.level = 0 => advice = raw[N]
NothingBefore == N = 0 => advice = None
=============================================================================
