----------------------------- MODULE RingTrace ------------------------------
(* Histories recorded from src/ringbuf.c against Ring.                       *)
EXTENDS Ring, Json, TLC
VARIABLES t, i
Traces == JsonDeserialize("traces.json")
E == Traces[t][i]
Ev == CASE E.e = "a?" -> CallAcquire(E.t, E.len)
        [] E.e = "a" -> RetAcquire(E.t, E.off, E.id)
        [] E.e = "p?" -> CallProduce(E.t)
        [] E.e = "p" -> RetProduce(E.t)
        [] E.e = "c?" -> IF taken = 0 THEN CallConsume
                         ELSE cons.k = "idle" /\ taken' = 0 /\ cons' = [cons EXCEPT !.k = "cons", !.must = Sure] /\ UNCHANGED <<q, next, pend, lastid, hand>>
        [] E.e = "c" -> RetConsume(E.off, E.len, E.ids)
        [] E.e = "r?" -> CallRelease(E.n)
        [] E.e = "r" -> RetRelease
        [] E.e = "end" -> /\ q = <<>> /\ cons.k = "idle" /\ \A u \in Threads : pend[u].k = "idle"
                          /\ UNCHANGED rvars
        [] OTHER -> FALSE
TInit == RingInit /\ t \in DOMAIN Traces /\ i = 1
TNext == /\ i <= Len(Traces[t]) /\ UNCHANGED t
         /\ \/ Ev /\ i' = i + 1
            \/ Internal /\ UNCHANGED i
TSpec == TInit /\ [][TNext]_<<q, next, pend, taken, cons, hand, lastid, t, i>>
Report == i = Len(Traces[t]) + 1 => PrintT(<<"ACCEPT", t>>)
Where == PrintT(<<"AT", t, i>>)
=============================================================================
