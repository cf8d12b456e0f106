------------------------------ MODULE ServerMC ------------------------------
(* A closed, finite instance of Server: clients that follow a script (and may *)
(* go away at any point), an application that answers each message by sends   *)
(* to given descriptors, and the server.  Checked exhaustively by TLC.        *)
EXTENDS Server
CONSTANTS Fds, Script,      \* Script[c]: the items client c sends
          Reply,            \* how many descriptors the application sends each message to: "self", "all", "others"
          MayLeave,         \* connections whose client may go away
          MayShut           \* whether the shutdown signal may come
VARIABLES pos, ans, got, took, cbs
mvars == <<conn, flight, down, destroyed, nsend, pos, ans, got, took, cbs>>
\* pos[c]: items of the script sent; ans[c]: descriptors the running callback has still to send to;
\* got[c]: what appeared on the wire; took[c]: messages handed over; cbs[c]: callbacks made
MCInit == Init /\ pos = [c \in Conns |-> 0] /\ ans = [c \in Conns |-> {}]
          /\ got = [c \in Conns |-> <<>>] /\ took = [c \in Conns |-> <<>>] /\ cbs = [c \in Conns |-> <<>>]
To(c) == CASE Reply = "self" -> {conn[c].fd}
           [] Reply = "all" -> {conn[d].fd : d \in {x \in Conns : conn[x].member /\ conn[x].st = "up"}} \cup {conn[c].fd}
           [] OTHER -> {conn[d].fd : d \in {x \in Conns \ {c} : conn[x].member /\ conn[x].st = "up"}}
U == UNCHANGED <<pos, ans, got, took, cbs>>
Client(c) ==
  \/ Connect(c) /\ U
  \/ /\ pos[c] < Len(Script[c]) /\ Send(c, Script[c][pos[c] + 1])
     /\ pos' = [pos EXCEPT ![c] = @ + 1] /\ UNCHANGED <<ans, got, took, cbs>>
  \/ c \in MayLeave /\ ~conn[c].away /\ Away(c) /\ U
Srv(c) ==
  \/ \E fd \in Fds : Accept(c, fd, "a") /\ U
  \/ /\ conn[c].st = "tcp" /\ HeadIs(c, "req") /\ Open(c, conn[c].fd, "a", Head(conn[c].sent).path, Head(conn[c].sent).ck)
     /\ cbs' = [cbs EXCEPT ![c] = Append(@, "open")] /\ UNCHANGED <<pos, ans, got, took>>
  \/ ~conn[c].member /\ Opened(c) /\ U
  \/ \E ok \in BOOLEAN : conn[c].member = ok /\ Response(c, ok) /\ U
  \/ /\ conn[c].answered
     /\ LET s == SkipPings(conn[c].sent)
        IN /\ s # <<>> /\ Message(c, Head(s).op, Head(s).id)
           /\ took' = [took EXCEPT ![c] = Append(@, Head(s).id)]
           /\ ans' = [ans EXCEPT ![c] = To(c)]
           /\ cbs' = [cbs EXCEPT ![c] = Append(@, "msg")] /\ UNCHANGED <<pos, got>>
  \/ ans[c] = {} /\ MessageDone(c) /\ U
  \/ \E fd \in ans[c] : SendBegin(c, fd, conn[c].cur[1], conn[c].cur[2]) /\ ans' = [ans EXCEPT ![c] = @ \ {fd}] /\ UNCHANGED <<pos, got, took, cbs>>
  \/ \E x \in flight : x.from = c /\ SendEnd(c, x.to) /\ U
  \/ /\ \E w \in {<<conn[c].q[k].op, conn[c].q[k].id>> : k \in DOMAIN conn[c].q} \cup {<<10, Head(conn[c].sent).id>> : k \in {j \in {1} : HeadIs(c, "ping")}}
                   \cup {<<8, IF HeadIs(c, "bad") THEN 1002 ELSE Head(conn[c].sent).id>> : k \in {j \in {1} : HeadIs(c, "close") \/ HeadIs(c, "bad")}} :
          Wire(c, w[1], w[2]) /\ got' = [got EXCEPT ![c] = Append(@, w)]
     /\ UNCHANGED <<pos, ans, took, cbs>>
  \/ CloseCb(c) /\ cbs' = [cbs EXCEPT ![c] = Append(@, "close")] /\ ans' = [ans EXCEPT ![c] = {}] /\ UNCHANGED <<pos, got, took>>
  \/ Closed(c, conn[c].fd) /\ U
Shut == MayShut /\ ~down /\ Signal /\ U
MCNext == (\E c \in Conns : Client(c) \/ Srv(c)) \/ Shut \/ (Destroy /\ U)
MCSpec == MCInit /\ [][MCNext]_mvars /\ \A c \in Conns : WF_mvars(Srv(c)) /\ WF_mvars(Connect(c) /\ U)
          /\ WF_mvars(Destroy /\ U)

\* --- what has to follow
Ids(s) == [k \in DOMAIN s |-> s[k].id]
MsgsOf(c) == SelectSeq(SubSeq(Script[c], 1, pos[c]), LAMBDA x : x.k = "msg")
IsPrefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
OneOwner == \A c, d \in Conns : c # d /\ conn[c].st \in {"tcp", "up", "ended"} /\ conn[d].st \in {"tcp", "up", "ended"} => conn[c].fd # conn[d].fd
InOrder == \A c \in Conns : IsPrefix(took[c], Ids(MsgsOf(c)))           \* each message once, in order
LifeCycle == \A c \in Conns : LET s == cbs[c] IN
               /\ Len(s) > 0 => s[1] = "open"
               /\ \A k \in 2..Len(s) : s[k] # "open" /\ (s[k] = "close" => k = Len(s))
               /\ conn[c].st \in {"ended"} => s # <<>> /\ s[Len(s)] = "close"
               /\ conn[c].st = "gone" /\ s # <<>> => s[Len(s)] = "close"
CloseLast == \A c \in Conns : \A k \in 1..Len(got[c]) - 1 : got[c][k][1] # 8
\* data on a wire: a subsequence of what each client sent, each at most once
DataFrom(c, d) == SelectSeq(got[c], LAMBDA w : w[1] \in {1, 2} /\ \E k \in DOMAIN Script[d] : Script[d][k].k = "msg" /\ Script[d][k].id = w[2])
PerSenderFifo == \A c, d \in Conns : LET s == DataFrom(c, d) IN \A k \in 1..Len(s) - 1 : s[k][2] < s[k + 1][2]
OnlySent == \A c \in Conns : \A k \in DOMAIN got[c] : got[c][k][1] \in {1, 2} => \E d \in Conns : \E m \in DOMAIN took[d] : took[d][m] = got[c][k][2]
Clean == destroyed => \A c \in Conns : conn[c].st # "up"
MCInv == OneOwner /\ InOrder /\ LifeCycle /\ CloseLast /\ PerSenderFifo /\ OnlySent /\ Clean
\* a server that keeps taking its enabled actions settles (clients send finitely much) ...
Settles == <>[](down \/ Quiet)
\* ... and a shut down server exits
Exits == [](down => <>Exited)
=============================================================================
