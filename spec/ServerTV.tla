------------------------------ MODULE ServerTV ------------------------------
(* Recorded sessions of the real server between scripted clients and a        *)
(* scripted data service.  ASPECTS: result, fault, list.                      *)
EXTENDS Server, Listing, Json, IOUtils, TLC
CONSTANT ASPECTS
Chk(a, c) == (a \notin ASPECTS \/ c) = TRUE
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, l
vars == <<svars, r, l>>
C == Runs[r].cfg
Ev == Runs[r].ev
e == Ev[l]
Is(x) == l <= Len(Ev) /\ e.e = x
Step == l' = l + 1 /\ r' = r
Range(s) == {s[i] : i \in DOMAIN s}
Q == DOMAIN C.reqs
R == C.reqs[e.q]
Needs(q) == Range(C.reqs[q].needs)
TVInit == r \in DOMAIN Runs /\ l = 1 /\ SInit(DOMAIN Runs[r].cfg.reqs)
DoAsk == Is("ask") /\ Step /\ Ask(e.q)
DoCall == Is("call") /\ Step /\ Call(e.q, e.c, Needs(e.q))
DoAnswer == Is("answer") /\ Step /\ Answer(e.q, e.c, e.k)
\* A shown generation: its number and its individuals (parameters, fitness, statistics).
ListOK(x) == LET want == Listed([i \in DOMAIN R.gens |-> R.gens[i].rank]) IN
  /\ [k \in DOMAIN x |-> x[k].nr] = want
  /\ \A k \in DOMAIN x : x[k].inds = R.gens[want[k] + 1].inds
DoGood == /\ Is("good") /\ Step
          /\ IF "fault" \in ASPECTS THEN Succeed(e.q, Needs(e.q)) /\ ~R.doomed
             ELSE st' = [st EXCEPT ![e.q] = "good"] /\ UNCHANGED <<sent, ans, hit, up>>
          /\ IF R.kind = "backtest" THEN Chk("result", e.stats = R.want)
             ELSE /\ Chk("list", ListOK(e.gens) /\ e.seed # "" /\ (R.seed # "" => e.seed = R.seed))
                  /\ Chk("result", \A k \in DOMAIN e.gens : e.gens[k].nr + 1 \in DOMAIN R.gens
                                    /\ e.gens[k].syms = R.syms)
DoBad == /\ Is("bad") /\ Step
         /\ IF "fault" \in ASPECTS THEN e.message /\ Fail(e.q, Range(e.named), R.doomed)
            \* What was served well is answered well.
            ELSE ((hit[e.q] \/ Faulty(e.q) # {} \/ R.doomed) = TRUE)
                 /\ st' = [st EXCEPT ![e.q] = "bad"] /\ UNCHANGED <<sent, ans, hit, up>>
DoDown == Is("down") /\ Step /\ Down
DoUp == Is("up") /\ Step /\ Up
\* The server is alive; malformed requests are the client's fault.
DoHello == Is("hello") /\ Step /\ Chk("fault", e.ok) /\ UNCHANGED svars
DoRefused == Is("refused") /\ Step /\ Chk("fault", e.status >= 400 /\ e.status < 500) /\ UNCHANGED svars
DoOffer == /\ Is("offer") /\ Step /\ UNCHANGED svars
           /\ Chk("list", Range(e.stats) = {"Profit", "ReturnOverMaxDrawdown", "SharpeRatio", "SortinoRatio"}
                          /\ Range(e.aggs) = {"Linear", "Log10", "Log10Factored"})
Finished == l > Len(Ev) /\ UNCHANGED vars
TVNext == DoAsk \/ DoCall \/ DoAnswer \/ DoGood \/ DoBad \/ DoDown \/ DoUp \/ DoHello \/ DoRefused \/ DoOffer \/ Finished
TVSpec == TVInit /\ [][TVNext]_vars
\* No request is left without an answer.
Settled == l <= Len(Ev) \/ \A q \in Q : st[q] \in {"good", "bad"}
=============================================================================
