------------------------------- MODULE Server -------------------------------
(* The whole server, seen from outside: clients connecting, talking and going *)
(* away at any moment, the callbacks of the subprotocol, what the application *)
(* sends, what appears on the wires, and the graceful shutdown.  The          *)
(* reactions to single frames are the business of Conn and Handshake; here    *)
(* client data are items                                                      *)
(*   [k |-> "req", ok, path, ck]  a complete upgrade request (ok: acceptable) *)
(*   [k |-> "msg", op, id]        a complete message (id stands for its bytes)*)
(*   [k |-> "ping", op |-> 10, id]  "close"  "bad" (a protocol violation)     *)
(* and every action has the conditions under which it is right.  Threads,     *)
(* buffers and partial reads and writes do not exist at this level: whatever  *)
(* the scheduling, an execution of the server has to be a behaviour of this   *)
(* specification.                                                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Conns,      \* connections
          App         \* what is known of the application: "any" (it announces
                      \* what it sends), "echo", "bcast" (the subprotocols shipped)

VARIABLES conn,       \* see Conn0
          flight,     \* sends the application is in the middle of
          down,       \* the shutdown was asked for
          destroyed,  \* the subprotocol was unloaded
          nsend       \* number of sends so far
vars == <<conn, flight, down, destroyed, nsend>>

Conn0 == [st |-> "new",       \* new, syn, tcp (accepted), up (connect callback done),
                              \* ended (close callback done), gone (descriptor closed)
          fd |-> 0,
          addr |-> "",       \* address and port of the client
          sent |-> <<>>,      \* what the client sent and the server did not react to yet
          q |-> <<>>,         \* what has to appear on its wire
          closepre |-> {},    \* what was queued when the client sent its close frame
          answered |-> FALSE, \* the 101 response was sent
          wclosed |-> FALSE,  \* a close frame was sent
          away |-> FALSE,     \* the client closed, reset or half closed
          stall |-> FALSE,    \* the client does not read
          member |-> FALSE,   \* the connect callback returned
          busy |-> FALSE,     \* a message callback runs
          duty |-> {},        \* (echo, bcast) whom the running callback has to send to
          did |-> {},         \* whom it did send to
          cur |-> <<0, 0>>]   \* and what
Init == /\ conn = [c \in Conns |-> Conn0]
        /\ flight = {} /\ down = FALSE /\ destroyed = FALSE /\ nsend = 0

Holder(fd) == {c \in Conns : conn[c].fd = fd /\ conn[c].st \in {"tcp", "up", "ended"}}
Set(c, r) == conn' = [conn EXCEPT ![c] = r]
Rest(c) == Tail(conn[c].sent)
HeadIs(c, k) == conn[c].sent # <<>> /\ Head(conn[c].sent).k = k

\* ---------------------------------------------------------------- clients
Connect(c) ==
  /\ conn[c].st = "new"
  /\ Set(c, [conn[c] EXCEPT !.st = "syn"])
  /\ UNCHANGED <<flight, down, destroyed, nsend>>

Send(c, item) ==
  /\ conn[c].st # "new" /\ ~conn[c].away
  /\ Set(c, [conn[c] EXCEPT !.sent = Append(@, item),
                            !.closepre = IF item.k \in {"close", "bad"} /\ @ = {} THEN {x.n : x \in {y \in {conn[c].q[i] : i \in DOMAIN conn[c].q} : y.done /\ y.must}} ELSE @])
  /\ UNCHANGED <<flight, down, destroyed, nsend>>

Away(c) ==
  /\ conn[c].st # "new"
  /\ Set(c, [conn[c] EXCEPT !.away = TRUE])
  /\ UNCHANGED <<flight, down, destroyed, nsend>>

Stall(c, b) ==
  /\ Set(c, [conn[c] EXCEPT !.stall = b])
  /\ UNCHANGED <<flight, down, destroyed, nsend>>

Signal ==
  /\ down' = TRUE
  /\ UNCHANGED <<conn, flight, destroyed, nsend>>

\* ---------------------------------------------------------------- life cycle
\* A descriptor is given to one connection at a time.
Accept(c, fd, addr) ==
  /\ conn[c].st = "syn" /\ Holder(fd) = {} /\ ~destroyed
  /\ Set(c, [conn[c] EXCEPT !.st = "tcp", !.fd = fd, !.addr = addr])
  /\ UNCHANGED <<flight, down, destroyed, nsend>>

\* The connect callback: upon an acceptable request, with the address of the
\* client, and the path and the cookies of the request.
\* Sends under way to the descriptor may still reach the connection.
Optional(x) == [n |-> x.n, from |-> x.from, op |-> x.op, id |-> x.id, must |-> FALSE, done |-> FALSE, pre |-> {}]
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y.n <= z.n IN <<x>> \o SetToSeq(S \ {x})
Open(c, fd, addr, path, ck) ==
  /\ conn[c].st = "tcp" /\ conn[c].fd = fd /\ conn[c].addr = addr /\ ~destroyed
  /\ HeadIs(c, "req") /\ Head(conn[c].sent).ok
  /\ Head(conn[c].sent).path = path /\ Head(conn[c].sent).ck = ck
  /\ Set(c, [conn[c] EXCEPT !.st = "up", !.sent = Rest(c),
                            !.q = @ \o SetToSeq({Optional(x) : x \in {y \in flight : y.to = fd /\ ~\E k \in DOMAIN conn[c].q : conn[c].q[k].n = y.n}})])
  /\ UNCHANGED <<flight, down, destroyed, nsend>>

Opened(c) ==          \* the connect callback returned
  /\ conn[c].st = "up"
  /\ Set(c, [conn[c] EXCEPT !.member = TRUE])
  /\ UNCHANGED <<flight, down, destroyed, nsend>>

\* An HTTP response: 101 once the connect callback was made, otherwise an error.
Response(c, ok) ==
  /\ ~conn[c].wclosed
  /\ IF ok THEN /\ conn[c].st = "up" /\ ~conn[c].answered
                /\ Set(c, [conn[c] EXCEPT !.answered = TRUE])
           ELSE /\ conn[c].st = "tcp" /\ HeadIs(c, "req") /\ ~Head(conn[c].sent).ok
                /\ Set(c, [conn[c] EXCEPT !.sent = Rest(c)])
  /\ UNCHANGED <<flight, down, destroyed, nsend>>

\* The pings before a message were answered before the message is handed over.
RECURSIVE Pongs(_, _, _, _)
Pongs(c, s, k, pre) ==   \* s begins with pings
  IF s = <<>> \/ Head(s).k # "ping" THEN <<>>
  ELSE <<[n |-> k, from |-> c, op |-> 10, id |-> Head(s).id, must |-> TRUE, done |-> TRUE, pre |-> pre]>> \o Pongs(c, Tail(s), k + 1, pre)
RECURSIVE SkipPings(_)
SkipPings(s) == IF s # <<>> /\ Head(s).k = "ping" THEN SkipPings(Tail(s)) ELSE s
DoneIn(q) == {q[i].n : i \in {j \in DOMAIN q : q[j].done /\ q[j].must}}

\* The message callback: the next message of that connection, whole, one at a time.
Message(c, op, id) ==
  LET s == SkipPings(conn[c].sent)
      p == Pongs(c, conn[c].sent, nsend, {})
  IN /\ conn[c].st = "up" /\ ~conn[c].busy /\ ~destroyed
     /\ s # <<>> /\ Head(s).k = "msg" /\ Head(s).op = op /\ Head(s).id = id
     /\ nsend' = nsend + Len(p)
     /\ Set(c, [conn[c] EXCEPT !.sent = Tail(s), !.q = IF conn[c].wclosed THEN @ ELSE @ \o p, !.busy = TRUE,
                               !.cur = <<op, id>>, !.did = {},
                               !.duty = CASE App = "echo" -> {c}
                                          [] App = "bcast" -> {d \in Conns \ {c} : conn[d].member}
                                          [] OTHER -> {}])
     /\ UNCHANGED <<flight, down, destroyed>>

MessageDone(c) ==
  /\ conn[c].st = "up" /\ conn[c].busy
  /\ conn[c].duty \subseteq conn[c].did
  /\ ~\E x \in flight : x.from = c
  /\ Set(c, [conn[c] EXCEPT !.busy = FALSE, !.duty = {}])
  /\ UNCHANGED <<flight, down, destroyed, nsend>>

\* The close callback: once, with a reason, not while another callback runs.
CloseCb(c) ==
  /\ conn[c].st = "up" /\ ~conn[c].busy /\ ~destroyed
  /\ conn[c].away \/ conn[c].wclosed \/ down
  /\ conn' = [d \in Conns |-> IF d = c THEN [conn[c] EXCEPT !.st = "ended", !.member = FALSE, !.q = <<>>]
                              ELSE [conn[d] EXCEPT !.duty = @ \ {c}]]
  /\ UNCHANGED <<flight, down, destroyed, nsend>>

\* The descriptor is closed only after the close callback, if there was a connect callback.
Closed(c, fd) ==
  /\ conn[c].fd = fd /\ conn[c].st \in {"tcp", "ended"}
  /\ conn[c].st = "tcp" => conn[c].away \/ down
  /\ Set(c, [conn[c] EXCEPT !.st = "gone"])
  /\ UNCHANGED <<flight, down, destroyed, nsend>>

\* ---------------------------------------------------------------- sending
\* The application sends to a descriptor from a callback of connection c.
SendBegin(c, to, op, id) ==
  LET H == Holder(to)
      x == [n |-> nsend, from |-> c, to |-> to, op |-> op, id |-> id]
  IN /\ conn[c].st \in {"up", "ended"}
     /\ ~\E y \in flight : y.from = c
     /\ App # "any" => /\ conn[c].busy /\ <<op, id>> = conn[c].cur
                       /\ \A d \in H : d \notin conn[c].did /\ (App = "echo" => d = c) /\ (App = "bcast" => d # c)
     /\ flight' = flight \cup {x}
     /\ nsend' = nsend + 1
     /\ conn' = [d \in Conns |->
          LET r == IF d \in H /\ conn[d].st = "up" /\ ~conn[d].wclosed
                   THEN [conn[d] EXCEPT !.q = Append(@, [n |-> x.n, from |-> c, op |-> op, id |-> id, must |-> TRUE, done |-> FALSE, pre |-> DoneIn(@)])]
                   ELSE IF d \in H /\ conn[d].st = "tcp" THEN [conn[d] EXCEPT !.q = Append(@, Optional(x))] ELSE conn[d]
          IN IF d = c THEN [r EXCEPT !.did = @ \cup H] ELSE r]
     /\ UNCHANGED <<down, destroyed>>

\* From now on the message is queued: what is sent later comes later.
SendEnd(c, to) ==
  /\ \E x \in flight : x.from = c /\ x.to = to
  /\ LET x == CHOOSE y \in flight : y.from = c /\ y.to = to
     IN /\ flight' = flight \ {x}
        /\ conn' = [d \in Conns |-> IF \E i \in DOMAIN conn[d].q : conn[d].q[i].n = x.n
                                    THEN [conn[d] EXCEPT !.q = [i \in DOMAIN @ |-> IF @[i].n = x.n THEN [@[i] EXCEPT !.done = TRUE] ELSE @[i]]]
                                    ELSE conn[d]]
  /\ UNCHANGED <<down, destroyed, nsend>>

\* May element j of the queue be the next on the wire?
MayGo(q, j) == \A k \in DOMAIN q : k # j /\ q[k].must => ~(q[k].n \in q[j].pre \/ (q[k].from = q[j].from /\ q[k].n < q[j].n))
Without(q, j) == LET keep == {k \in DOMAIN q : k # j /\ ~(~q[k].must /\ q[k].from = q[j].from /\ q[k].n < q[j].n)}
                 IN SelectSeq([k \in DOMAIN q |-> IF k \in keep THEN q[k] ELSE [q[k] EXCEPT !.op = 99]], LAMBDA e : e.op # 99)
OwnPending(c) == \E k \in DOMAIN conn[c].q : conn[c].q[k].must /\ conn[c].q[k].from = c

\* A complete message or control frame appears on the wire of c.
WireQueued(c, op, id) ==
  /\ conn[c].st \in {"up", "ended"} /\ conn[c].answered /\ ~conn[c].wclosed
  /\ \E j \in DOMAIN conn[c].q :
       /\ conn[c].q[j].op = op /\ conn[c].q[j].id = id
       /\ MayGo(conn[c].q, j)
       /\ Set(c, [conn[c] EXCEPT !.q = IF op = 8 THEN <<>> ELSE Without(@, j), !.wclosed = (op = 8)])
  /\ UNCHANGED <<flight, down, destroyed, nsend>>
WirePong(c, id) ==        \* the answer to a ping that is the next thing to react to
  /\ conn[c].st = "up" /\ conn[c].answered /\ ~conn[c].wclosed /\ ~conn[c].busy
  /\ HeadIs(c, "ping") /\ Head(conn[c].sent).id = id /\ ~OwnPending(c)
  /\ Set(c, [conn[c] EXCEPT !.sent = Rest(c)])
  /\ UNCHANGED <<flight, down, destroyed, nsend>>
WireClose(c, id) ==       \* the answer to a close frame or a violation
  /\ conn[c].st = "up" /\ conn[c].answered /\ ~conn[c].wclosed /\ ~conn[c].busy
  /\ (HeadIs(c, "close") \/ HeadIs(c, "bad")) /\ ~OwnPending(c)
  /\ HeadIs(c, "close") => id \in (IF Head(conn[c].sent).id = 0 THEN {0, 1000} ELSE {Head(conn[c].sent).id})
  /\ ~\E k \in DOMAIN conn[c].q : conn[c].q[k].n \in conn[c].closepre
  /\ Set(c, [conn[c] EXCEPT !.wclosed = TRUE, !.q = <<>>])
  /\ UNCHANGED <<flight, down, destroyed, nsend>>
Wire(c, op, id) == WireQueued(c, op, id) \/ (op = 10 /\ WirePong(c, id)) \/ (op = 8 /\ WireClose(c, id))

\* ---------------------------------------------------------------- progress
\* The server has nothing left to do: everything it owes was done.
Settled(c) ==
  LET r == conn[c]
  IN CASE r.st = "syn" -> FALSE
       [] r.st = "tcp" -> ~r.away /\ r.sent = <<>>
       [] r.st = "up" -> \/ r.stall           \* it may wait for this client to read
                         \/ (/\ ~r.away /\ ~r.busy
                             /\ ~r.wclosed /\ r.answered /\ r.sent = <<>>
                                        /\ \A k \in DOMAIN r.q : ~r.q[k].must)
       [] r.st = "ended" -> FALSE
       [] OTHER -> TRUE
Quiet == down \/ \A c \in Conns : Settled(c)
Quiesce == Quiet /\ UNCHANGED vars

\* ---------------------------------------------------------------- shutdown
Destroy ==
  /\ ~destroyed /\ down
  /\ \A c \in Conns : conn[c].st \notin {"up"}
  /\ destroyed' = TRUE
  /\ UNCHANGED <<conn, flight, down, nsend>>
Exited == destroyed /\ \A c \in Conns : conn[c].st \notin {"tcp", "up", "ended"}
Exit == Exited /\ UNCHANGED vars
=============================================================================
