---------------------------- MODULE TimeoutTrace ----------------------------
(* Executions of the real server in virtual time against Timeout.            *)
EXTENDS Timeout, Json, TLC, Sequences
VARIABLES t, i
Traces == JsonDeserialize("traces.json")
E == Traces[t][i]
Ev == CASE E.e = "time" -> Advance(E.t)
        [] E.e = "connect" -> Connect(E.c)
        [] E.e = "data" -> Data(E.c, E.mid)
        [] E.e = "stall" -> Stall(E.c, E.b)
        [] E.e = "up" -> Upgraded(E.c)
        [] E.e = "ping" -> Ping(E.c)
        [] E.e = "giveup" -> c[E.c].st # "raw" /\ GiveUp(E.c)
        [] E.e = "leave" -> Leave(E.c)
        [] E.e = "wclose" -> c[E.c].st = "over" /\ UNCHANGED vars     \* another closing handshake
        [] E.e = "closed" -> Closed(E.c)
        [] E.e = "stop" -> Stop
        [] E.e = "exit" -> (\A k \in Conns : c[k].st \in {"none", "closed"}) /\ UNCHANGED vars
        [] OTHER -> FALSE
TInit == Init /\ t \in DOMAIN Traces /\ i = 1
TNext == i <= Len(Traces[t]) /\ Ev /\ i' = i + 1 /\ UNCHANGED t
TSpec == TInit /\ [][TNext]_<<now, c, t, i>>
Report == i = Len(Traces[t]) + 1 => PrintT(<<"ACCEPT", t>>)
Where == PrintT(<<"AT", t, i>>)
=============================================================================
