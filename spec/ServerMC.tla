------------------------------ MODULE ServerMC ------------------------------
(* The design inside the server: calls are issued from a list, each answer is *)
(* stored at its call's place in the list, and the result pairs the i-th      *)
(* answer with the i-th call.  PAIR = "arrival" is the broken variant which   *)
(* pairs answers in the order in which they come in.                          *)
EXTENDS Server
CONSTANTS REQS, NSYM, IVS, PAIR, FAULTS
VARIABLES slot, came, out
vars == <<svars, slot, came, out>>
Symbols(q) == IF q = 1 THEN SubSeq(<<"a", "b", "c">>, 1, NSYM) ELSE SubSeq(<<"b", "a", "c">>, 1, NSYM)
\* The list of calls, candles symbol by symbol and interval by interval.
N(q) == 2 + Len(Symbols(q)) * IVS
CallAt(q, i) == IF i = 1 THEN <<"info">> ELSE IF i = 2 THEN <<"prices">>
                ELSE <<"candles", Symbols(q)[1 + ((i - 3) \div IVS)], 1 + ((i - 3) % IVS)>>
Needs(q) == {CallAt(q, i) : i \in 1..N(q)}
MInit == SInit(REQS) /\ slot = [q \in REQS |-> [i \in 1..N(q) |-> <<>>]] /\ came = [q \in REQS |-> 0]
         /\ out = [q \in REQS |-> <<>>]
Issue == \E q \in REQS : /\ st[q] = "open" /\ sent[q] = {} /\ up
                         /\ sent' = [sent EXCEPT ![q] = Needs(q)] /\ UNCHANGED <<st, ans, hit, up, slot, came, out>>
\* The answer to a call carries the data of that very request and call.
Deliver(q, i) == LET at == IF PAIR = "slot" \/ i <= 2 THEN i ELSE came[q] + 3 IN
  /\ st[q] = "open" /\ CallAt(q, i) \in sent[q] /\ ~\E a \in ans[q] : a[1] = CallAt(q, i)
  /\ \/ /\ Answer(q, CallAt(q, i), "ok")
        /\ slot' = [slot EXCEPT ![q][at] = <<q, CallAt(q, i)>>]
        /\ came' = IF i <= 2 THEN came ELSE [came EXCEPT ![q] = @ + 1]
     \/ /\ \E k \in FAULTS : Answer(q, CallAt(q, i), k)
        /\ UNCHANGED <<slot, came>>
  /\ UNCHANGED out
\* What a symbol's result is made of.
Made(q) == [j \in 1..Len(Symbols(q)) |->
             <<slot[q][1], slot[q][2], [v \in 1..IVS |-> slot[q][2 + ((j - 1) * IVS) + v]]>>]
Reply(q) == \/ Succeed(q, Needs(q)) /\ out' = [out EXCEPT ![q] = Made(q)] /\ UNCHANGED <<slot, came>>
            \/ /\ Faulty(q) # {} \/ hit[q]
               /\ \E a \in Faulty(q) \cup {<< <<"nothing">>, "outage">>} : Fail(q, IF a[2] = "api" THEN {a[1]} ELSE {}, FALSE)
               /\ UNCHANGED <<slot, came, out>>
MNext == \/ \E q \in REQS : (Ask(q) /\ UNCHANGED <<slot, came, out>>)
         \/ Issue
         \/ \E q \in REQS : \E i \in 1..N(q) : Deliver(q, i)
         \/ \E q \in REQS : Reply(q)
         \/ (Down /\ UNCHANGED <<slot, came, out>>)
         \/ (Up /\ UNCHANGED <<slot, came, out>>)
MSpec == MInit /\ [][MNext]_vars
         /\ \A q \in REQS : WF_vars(Reply(q)) /\ \A i \in 1..6 : WF_vars(i <= N(q) /\ Deliver(q, i))
         /\ WF_vars(Issue) /\ WF_vars(Up /\ UNCHANGED <<slot, came, out>>)
\* Each symbol's result is made of the data of that symbol, of this request.
Own == \A q \in REQS : st[q] = "good" =>
         \A j \in 1..Len(Symbols(q)) :
           out[q][j] = << <<q, <<"info">> >>, <<q, <<"prices">> >>,
                          [v \in 1..IVS |-> <<q, <<"candles", Symbols(q)[j], v>> >>] >>
NoPartial == \A q \in REQS : st[q] = "good" => Faulty(q) = {} /\ Cardinality(ans[q]) = Cardinality(Needs(q))
NoInvented == \A q \in REQS : st[q] = "bad" => hit[q] \/ Faulty(q) # {}
Answered == \A q \in REQS : (st[q] = "open") ~> (st[q] \in {"good", "bad"})
\* A fault in one request leaves the others alone.
Alone == \A q \in REQS : ~hit[q] /\ Faulty(q) = {} => st[q] # "bad"
=============================================================================
