----------------------------- MODULE Handshake -----------------------------
(* The opening handshake: which answer the server gives to each request on a *)
(* connection and when it upgrades it.  A request is a record of the classes *)
(* its parts fall into; the answer depends on nothing else (not on the order *)
(* or spelling of the headers, nor on segmentation).                         *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Config,      \* [hosts, origins, paths, queries: are they restricted, echo: is the echo subprotocol loaded]
          Dom,         \* attribute -> set of classes to choose from
          MaxDev,      \* number of attributes differing from the good request
          MaxRequests  \* requests per connection
VARIABLES upgraded,    \* the connection is a WebSocket connection
          hist,        \* requests made
          answers      \* for each the admissible status codes and the subprotocol
vars == <<upgraded, hist, answers>>

Attrs == {"method", "target", "httpver", "host", "upgrade", "connection", "key", "version", "origin", "proto", "extra"}
Good == [method |-> "GET", target |-> "root", httpver |-> "1.1", host |-> "ok", upgrade |-> "ok", connection |-> "ok",
         key |-> "ok", version |-> "13", origin |-> "ok", proto |-> "rec", extra |-> "none"]

Restricted == Config.hosts \/ Config.paths \/ Config.queries
\* targets: is the path, host and query part one the configuration allows
TargetOk(t) ==
  IF ~Restricted THEN TRUE
  ELSE CASE t = "root" -> TRUE
         [] t \in {"wsabs", "wsabsport"} -> Config.hosts
         [] t \in {"listed", "listedre"} -> Config.paths
         [] t \in {"unlisted", "listedprefix", "limit"} -> FALSE
         [] t \in {"query", "query2"} -> Config.queries
         [] t \in {"badquery", "badquery2"} -> FALSE
         [] t = "listedquery" -> Config.paths /\ Config.queries
         [] t = "wsother" -> FALSE
         [] t = "wsport" -> FALSE
         [] t = "wss" -> FALSE
         [] OTHER -> TRUE

\* the subprotocol answered: the first the client offers that is loaded
Proto(r) == CASE r.proto \in {"rec", "unknownrec", "rececho", "recrec", "twoheaders"} -> "rec"
              [] r.proto \in {"echo", "echorec"} -> (IF Config.echo THEN "echo" ELSE IF r.proto = "echorec" THEN "rec" ELSE "")
              [] OTHER -> ""

\* Status codes the defects of the request call for, split into those of the
\* request as such and those of the upgrade it asks for.
ParseDefects(r) ==
  (IF r.method # "GET" THEN {405} ELSE {})
  \cup (IF r.target \in {"relative", "missing"} THEN {400} ELSE {})
  \cup (IF r.target = "long" THEN {414} ELSE {})
  \cup (IF r.httpver \in {"1.0", "2.0", "lower"} THEN {505} ELSE {})
  \cup (IF r.httpver \in {"none", "behind"} THEN {400} ELSE {})
  \cup (IF r.key = "dup" THEN {400} ELSE {})
  \cup (IF r.version = "dup" THEN {400} ELSE {})
  \cup (IF r.extra \in {"bigheader", "manyheaders"} THEN {431} ELSE {})
  \cup (IF r.extra = "hugeheader" THEN {413, 431} ELSE {})
  \cup (IF r.extra = "bigbody" THEN {413} ELSE {})
UpgradeDefects(r) ==
  (IF r.target \in {"http", "https"} THEN {426} ELSE {})
  \cup (IF ~TargetOk(r.target) THEN {404} ELSE {})
  \cup (IF Config.hosts /\ r.host # "ok" THEN {400} ELSE {})
  \cup (IF r.upgrade \in {"absent", "other", "empty", "longer"} THEN {426} ELSE {})
  \cup (IF r.connection \in {"absent", "other", "keepalive", "empty", "longer"} THEN {426} ELSE {})
  \cup (IF Config.origins /\ r.origin \notin {"ok", "secorigin"} THEN {403} ELSE {})
  \cup (IF r.version \in {"absent", "0", "6", "12", "14", "text", "like13"} THEN {501} ELSE {})
  \* requests of the versions before RFC 6455 had another upgrade header
  \cup (IF r.version \in {"absent", "0", "12", "14", "text", "like13"} THEN {426} ELSE {})
  \cup (IF r.key \in {"absent", "short", "long", "garbage", "empty", "tail", "unpadded", "chars"} THEN {426} ELSE {})
  \cup (IF ~Config.echo /\ Proto(r) = "" THEN {500} ELSE {})
Defects(r) == ParseDefects(r) \cup UpgradeDefects(r)

Status(r) == IF ParseDefects(r) = {} /\ r.target = "favicon" THEN (IF Config.favicon THEN {200} ELSE {404})
             ELSE IF Defects(r) = {} THEN {101}
             ELSE IF r.target = "favicon" THEN Defects(r) \cup {200, 404} ELSE Defects(r)

Dev(r) == Cardinality({a \in Attrs : r[a] # Good[a]})
AllAttr == [a \in Attrs |-> {Good[a]} \cup Dom[a]]
\* every request with at most MaxDev deviations
RECURSIVE Reqs(_)
Reqs(n) == IF n = 0 THEN {Good} ELSE LET s == Reqs(n - 1) IN s \cup UNION {{[r EXCEPT ![a] = v] : v \in Dom[a]} : <<r, a>> \in s \X Attrs}
Requests == Reqs(MaxDev)

Init == upgraded = FALSE /\ hist = <<>> /\ answers = <<>>
Request(r) ==
  /\ ~upgraded /\ Len(hist) < MaxRequests
  /\ hist' = Append(hist, r)
  /\ answers' = Append(answers, [status |-> Status(r), proto |-> Proto(r)])
  /\ upgraded' = (Status(r) = {101})
Next == \E r \in Requests : Request(r)
Spec == Init /\ [][Next]_vars

\* upgraded exactly by a request without any defect, which is then the last
OnlyValid == \A i \in 1..Len(hist) : (101 \in answers[i].status) <=> (Defects(hist[i]) = {} /\ hist[i].target # "favicon")
UpgradeIsLast == \A i \in 1..Len(hist) : 101 \in answers[i].status => i = Len(hist) /\ upgraded
Answered == \A i \in 1..Len(hist) : answers[i].status # {}
Offered == \A i \in 1..Len(hist) : answers[i].proto = "rec" => hist[i].proto \in {"rec", "unknownrec", "rececho", "recrec", "twoheaders", "echorec"}
Invariants == OnlyValid /\ UpgradeIsLast /\ Answered /\ Offered
Done == upgraded \/ Len(hist) = MaxRequests
Case == [h |-> hist, a |-> answers, u |-> upgraded]
=============================================================================
