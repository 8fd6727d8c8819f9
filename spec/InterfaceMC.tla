---------------------------- MODULE InterfaceMC ----------------------------
(* A browser with pages of two origins before a server.  STYLE: "permissive"  *)
(* allows everything everywhere; "bare" forgets to on errors; "late" answers  *)
(* preflights by routing them (no route serves OPTIONS); "one" names the      *)
(* origin of whoever asked first.                                             *)
EXTENDS Interface
CONSTANTS STYLE, PAGES
Origins == {"a", "b"}
Methods == {"GET", "POST", "PUT"}
Paths == {"/", "/backtest", "/optimize", "/nowhere"}
VARIABLES want, at, out, first
vars == <<want, at, out, first>>
None == [m |-> "", path |-> "", hs |-> {}, body |-> "plain", origin |-> ""]
Wants == {[m |-> m, path |-> p, hs |-> h, body |-> b, origin |-> o] :
            m \in Methods, p \in Paths, h \in {{}, {"content-type"}}, b \in {"plain", "good", "fails"}, o \in Origins}
Init == want = [p \in PAGES |-> None] /\ at = [p \in PAGES |-> "idle"] /\ out = [p \in PAGES |-> [status |-> 0, ao |-> ""]] /\ first = ""
Want(p) == /\ at[p] = "idle"
           /\ \E w \in Wants : want' = [want EXCEPT ![p] = w] /\ at' = [at EXCEPT ![p] = IF Simple(w.m, w.hs) THEN "clear" ELSE "asked"]
           /\ UNCHANGED <<out, first>>
Met(o) == IF first = "" THEN o ELSE first
Allow(o, status) == CASE STYLE = "one" -> Met(o) [] STYLE = "bare" /\ status >= 400 -> "" [] OTHER -> "*"
Pre(p) == /\ at[p] = "asked"
          /\ LET w == want[p]
                 x == IF STYLE = "late" THEN [status |-> 405, ao |-> "*", am |-> {}, ah |-> {}]
                      ELSE [status |-> 200, ao |-> Allow(w.origin, 200), am |-> {"*"}, ah |-> {"*"}]
             IN  at' = [at EXCEPT ![p] = IF Permits(x, w.origin, w.m, w.hs) THEN "clear" ELSE "blocked"]
          /\ first' = Met(want[p].origin)
          /\ UNCHANGED <<want, out>>
Call(p) == /\ at[p] = "clear"
           /\ LET w == want[p] IN \E s \in Statuses(w.m, w.path, w.body) \cap {200, 400, 404, 405, 500} :
                LET x == [status |-> s, ao |-> Allow(w.origin, s)] IN
                out' = [out EXCEPT ![p] = x] /\ at' = [at EXCEPT ![p] = IF Readable(x, w.origin) THEN "read" ELSE "blocked"]
           /\ first' = Met(want[p].origin)
           /\ UNCHANGED want
Next == \E p \in PAGES : Want(p) \/ Pre(p) \/ Call(p)
Spec == Init /\ [][Next]_vars /\ \A p \in PAGES : WF_vars(Want(p)) /\ WF_vars(Pre(p)) /\ WF_vars(Call(p))
\* Every page reads every reply.
Open == \A p \in PAGES : at[p] # "blocked"
AllRead == \A p \in PAGES : <>(at[p] = "read")
\* Only what is served succeeds.
Only == \A p \in PAGES : at[p] = "read" /\ out[p].status = 200 => Served(want[p].m, want[p].path)
Told == \A p \in PAGES : at[p] = "read" /\ want[p].body = "fails" /\ want[p].m = "POST" /\ Served("POST", want[p].path) => out[p].status = 500
=============================================================================
