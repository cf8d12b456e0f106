---------------------------- MODULE ServerTrace ----------------------------
(* Checks recorded executions of the real server against Server.  traces.json *)
(* holds a sequence of traces, each a sequence of events; a trace is accepted *)
(* when all its events can be taken in order.                                 *)
EXTENDS Server, Json, TLCExt
VARIABLES t, i
Traces == JsonDeserialize("traces.json")
tvars == <<conn, flight, down, destroyed, nsend, t, i>>
E == Traces[t][i]
C(fd) == CHOOSE c \in Holder(fd) : TRUE
Known(fd) == Holder(fd) # {}

TraceInit == Init /\ t \in DOMAIN Traces /\ i = 1
Step ==
  CASE E.e = "connect" -> Connect(E.c)
    [] E.e = "accept" -> Accept(E.c, E.fd, E.addr)
    [] E.e = "csend" -> Send(E.c, E.item)
    [] E.e = "away" -> Away(E.c)
    [] E.e = "stall" -> Stall(E.c, E.b)
    [] E.e = "sig" -> Signal
    [] E.e = "open" -> Known(E.fd) /\ Open(C(E.fd), E.fd, E.addr, E.path, E.ck)
    [] E.e = "opened" -> Known(E.fd) /\ Opened(C(E.fd))
    [] E.e = "http" -> Response(E.c, E.ok)
    [] E.e = "msg" -> Known(E.fd) /\ Message(C(E.fd), E.op, E.id)
    [] E.e = "msgend" -> Known(E.fd) /\ MessageDone(C(E.fd))
    [] E.e = "snd" -> Known(E.fd) /\ SendBegin(C(E.fd), E.to, E.op, E.id)
    [] E.e = "sndend" -> Known(E.fd) /\ SendEnd(C(E.fd), E.to)
    [] E.e = "wire" -> Wire(E.c, E.op, E.id)
    [] E.e = "close" -> Known(E.fd) /\ CloseCb(C(E.fd))
    [] E.e = "fdclose" -> Closed(E.c, E.fd)
    [] E.e = "quiet" -> Quiesce
    [] E.e = "destroy" -> Destroy
    [] E.e = "exit" -> Exit
    [] OTHER -> FALSE          \* "garbage": bytes that are no frame
TraceNext == /\ i <= Len(Traces[t]) /\ Step /\ i' = i + 1 /\ UNCHANGED t
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Report == i = Len(Traces[t]) + 1 => PrintT(<<"ACCEPT", t>>)
Where == PrintT(<<"AT", t, i>>)
=============================================================================
