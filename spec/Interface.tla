----------------------------- MODULE Interface -----------------------------
(* The routes of the server, and the protocol by which a browser lets a page  *)
(* of some origin use them: unless a call is simple the browser first asks    *)
(* for permission (preflight), and a reply can be read only if it names the   *)
(* page's origin, or all, as allowed, whatever the reply is.                  *)
EXTENDS Naturals, Sequences, FiniteSets
Routes == [path \in {"/", "/backtest", "/optimize"} |->
             CASE path = "/" -> {"GET"} [] path = "/backtest" -> {"POST"} [] OTHER -> {"GET", "POST"}]
Known(path) == path \in DOMAIN Routes
\* What is asked for, besides what asking by GET allows.
Served(m, path) == Known(path) /\ (m \in Routes[path] \/ (m = "HEAD" /\ "GET" \in Routes[path]))
Simple(m, hs) == m \in {"GET", "HEAD", "POST"} /\ hs = {}
Covers(allowed, x) == "*" \in allowed \/ x \in allowed
\* A preflight's reply: status, allowed origin, methods and headers (in lower case).
Permits(x, origin, m, hs) ==
  /\ x.status \in 200..299
  /\ x.ao \in {"*", origin}
  /\ m \in {"GET", "HEAD", "POST"} \/ Covers(x.am, m)
  /\ \A h \in hs : Covers(x.ah, h)
Readable(x, origin) == x.ao \in {"*", origin}
\* body: "plain" (none, or nothing the route understands), "good" (computable), "fails" (the data service fails it).
Statuses(m, path, body) ==
  CASE ~Known(path) -> {404}
    [] Known(path) /\ ~Served(m, path) -> {405}
    [] m \in {"GET", "HEAD"} /\ Served(m, path) -> {200}
    [] OTHER -> CASE body = "good" -> {200} [] body = "fails" -> {500} [] OTHER -> 400..499
\* Results, failures and the choices on offer are JSON documents.
Document(m, path, body) == (m = "POST" /\ Served(m, path) /\ body \in {"good", "fails"}) \/ (m = "GET" /\ path = "/optimize")
=============================================================================
