---------------------------- MODULE StrategiesMC ----------------------------
(* Rules over all indicator sign patterns.                                   *)
EXTENDS Strategies
CONSTANT LEN
S == {-1, 0, 1}
Cfgs == {[k |-> "DoubleMA"], [k |-> "SingleMA"], [k |-> "TripleMA"], [k |-> "Macd"],
         [k |-> "FourWeekRule", period |-> 2], [k |-> "DoubleMA2", pos |-> 5, neg |-> -5, d |-> 20],
         [k |-> "DoubleMAStoch"]}
VARIABLE last   \* last inputs
MCInit == (\E c \in Cfgs : InitWith(c)) /\ last = [z |-> 0]
Inputs ==
  CASE cfg.k \in {"DoubleMA", "Macd"} -> {[x |-> x] : x \in S}
    [] cfg.k = "SingleMA" -> {[x |-> x, y |-> y] : x \in S, y \in S}
    \* signs of three numbers are transitive
    [] cfg.k = "TripleMA" -> {[sm |-> a, ml |-> b, sl |-> c] : a \in S, b \in S, c \in S} \
         {[sm |-> a, ml |-> b, sl |-> c] : a \in {0, 1}, b \in {0, 1}, c \in {-1}}
    [] cfg.k = "FourWeekRule" -> {[c |-> c, x |-> x] : c \in 1..4, x \in S}
    [] cfg.k = "DoubleMA2" -> {[x |-> a - 1000, m |-> a + 1000] : a \in {990, 1000, 1010, 1002}}
    [] cfg.k = "DoubleMAStoch" -> {[x |-> x, dm |-> 1, ku |-> z[1], kd |-> z[2], kh |-> z[3]] : x \in S,
         \* %K below the lower threshold, below 50, below the upper threshold, above it
         z \in {<<-1, -1, -1>>, <<-1, 0, -1>>, <<-1, 1, 0>>, <<0, 1, 1>>}}
Ready == cfg.k = "FourWeekRule" => Len(win) = cfg.period
MCNext == t < LEN /\ \E x \in Inputs :
            /\ \E o \in (IF Ready THEN Outcomes(x) ELSE {advice}) : Update(x, Ready, o)
            /\ last' = x
MCSpec == MCInit /\ [][MCNext]_<<vars, last>>
TypeOK == advice \in Codes
\* Only strategies with explicit exits ever liquidate.
WhoLiquidates == advice = Liquidate => cfg.k \in {"TripleMA", "FourWeekRule", "DoubleMAStoch"}
\* A long never becomes a short without the rule's own short signal, and never silently none again.
NeverForgets == [][advice # None => advice' # None]_<<vars, last>>
\* Breakouts follow the channel, whatever was advised before.
BreakoutWins == [][(cfg.k = "FourWeekRule" /\ Ready) =>
    /\ (last'.c >= HighTo(win, Len(win)) => advice' = Long)
    /\ (last'.c < LowTo(win, Len(win)) => advice' = Short)]_<<vars, last>>
\* A screened position ends in the extreme zone it was waiting for, or against the crossover.
ScreenedExits == [][(cfg.k = "DoubleMAStoch" /\ advice = Long /\ advice' = Long) => last'.ku < 0 /\ ma' # Short]_<<vars, last>>
=============================================================================
