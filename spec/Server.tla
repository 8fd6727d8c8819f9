------------------------------- MODULE Server -------------------------------
(* The server between its clients and the data service.  A request needs a    *)
(* set of calls (exchange information, prices, candles per symbol and         *)
(* interval), which may be made and answered in any order, alongside those of *)
(* other requests, and may be repeated.  It is answered with its result once  *)
(* each of its calls was answered well, or with an error once one was not.    *)
(* A doomed request asks for something which cannot be computed.              *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES st, sent, ans, hit, up
svars == <<st, sent, ans, hit, up>>
Fault == {"api", "apitext", "server", "busy", "garbage", "shape", "null", "missing", "cut", "drop", "empty", "gone"}
Good(k) == k = "ok"
\* st: idle, open, good, bad.   ans[q]: set of <<call, kind of answer>>.
SInit(Q) == /\ st = [q \in Q |-> "idle"] /\ sent = [q \in Q |-> {}] /\ ans = [q \in Q |-> {}]
            /\ hit = [q \in Q |-> FALSE] /\ up = TRUE
Ask(q) == /\ st[q] = "idle" /\ st' = [st EXCEPT ![q] = "open"]
          /\ hit' = [hit EXCEPT ![q] = ~up] /\ UNCHANGED <<sent, ans, up>>
\* Calls of a request already given up may still be on their way, and so may calls made just before the service
\* went down.
Call(q, c, needs) == /\ st[q] \in {"open", "bad"} /\ c \in needs
                     /\ sent' = [sent EXCEPT ![q] = @ \cup {c}] /\ UNCHANGED <<st, ans, hit, up>>
Answer(q, c, k) == /\ c \in sent[q] /\ (Good(k) \/ k \in Fault)
                   /\ ans' = [ans EXCEPT ![q] = @ \cup {<<c, k>>}] /\ UNCHANGED <<st, sent, hit, up>>
Complete(q, needs) == \A c \in needs : <<c, "ok">> \in ans[q]
Faulty(q) == {a \in ans[q] : ~Good(a[2])}
Succeed(q, needs) == /\ st[q] = "open" /\ Complete(q, needs)
                     /\ st' = [st EXCEPT ![q] = "good"] /\ UNCHANGED <<sent, ans, hit, up>>
\* `named`: the calls whose own error text the message repeats.
NamesOK(q, named) == /\ named \subseteq {a[1] : a \in {b \in ans[q] : b[2] = "api"}}
                     /\ (Faulty(q) # {} /\ (\A a \in Faulty(q) : a[2] = "api") /\ ~hit[q]) => named # {}
Fail(q, named, doomed) == /\ st[q] = "open" /\ (hit[q] \/ Faulty(q) # {} \/ doomed)
                  /\ NamesOK(q, named)
                  /\ st' = [st EXCEPT ![q] = "bad"] /\ UNCHANGED <<sent, ans, hit, up>>
Down == /\ up /\ up' = FALSE /\ hit' = [q \in DOMAIN st |-> hit[q] \/ st[q] = "open"] /\ UNCHANGED <<st, sent, ans>>
Up == ~up /\ up' = TRUE /\ UNCHANGED <<st, sent, ans, hit>>
=============================================================================
