---------------------------- MODULE InterfaceTV ----------------------------
(* Pages of several origins using the real server at the same time.           *)
EXTENDS Interface, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, l, at, want
vars == <<r, l, at, want>>
Ev == Runs[r].ev
e == Ev[l]
Is(x) == l <= Len(Ev) /\ e.e = x
Step == l' = l + 1 /\ r' = r
Range(s) == {s[i] : i \in DOMAIN s}
Pages == 1..Runs[r].cfg.pages
TVInit == r \in DOMAIN Runs /\ l = 1 /\ at = [p \in 1..Runs[r].cfg.pages |-> "idle"] /\ want = [p \in 1..Runs[r].cfg.pages |-> <<>>]
DoWant == /\ Is("want") /\ Step /\ at[e.p] = "idle"
          /\ want' = [want EXCEPT ![e.p] = e]
          /\ at' = [at EXCEPT ![e.p] = IF Simple(e.m, Range(e.hs)) THEN "clear" ELSE "asked"]
W == want[e.p]
DoPre == /\ Is("pre") /\ Step /\ at[e.p] = "asked"
         /\ Permits([status |-> e.status, ao |-> e.ao, am |-> Range(e.am), ah |-> Range(e.ah)], W.origin, W.m, Range(W.hs)) = TRUE
         /\ at' = [at EXCEPT ![e.p] = "clear"] /\ UNCHANGED want
DoGot == /\ Is("got") /\ Step /\ at[e.p] = "clear"
         /\ Readable(e, W.origin)
         /\ e.status \in Statuses(W.m, W.path, W.body)
         /\ Document(W.m, W.path, W.body) => e.doc = 1
         /\ W.body = "fails" /\ e.status = 500 => e.told = 1
         /\ at' = [at EXCEPT ![e.p] = "idle"] /\ UNCHANGED want
\* The choices on offer.
DoOffer == /\ Is("offer") /\ Step /\ UNCHANGED <<at, want>>
           /\ Range(e.stats) = {"Profit", "ReturnOverMaxDrawdown", "SharpeRatio", "SortinoRatio"}
           /\ Range(e.aggs) = {"Linear", "Log10", "Log10Factored"}
           /\ Len(e.stats) = 4 /\ Len(e.aggs) = 3
Finished == l > Len(Ev) /\ UNCHANGED vars
TVNext == DoWant \/ DoPre \/ DoGot \/ DoOffer \/ Finished
TVSpec == TVInit /\ [][TVNext]_vars
Settled == l <= Len(Ev) \/ \A p \in Pages : at[p] = "idle"
=============================================================================
