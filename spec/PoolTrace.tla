----------------------------- MODULE PoolTrace ------------------------------
(* Histories recorded from src/pool.c against Pool.                          *)
EXTENDS Pool, Json, TLC
VARIABLES t, i, want
Traces == JsonDeserialize("traces.json")
E == Traces[t][i]
Ev == CASE E.e = "new" -> New(E.n, E.q)
        [] E.e = "none" -> None
        [] E.e = "add?" -> CallAdd(E.t, E.id, E.ok)
        [] E.e = "add" -> RetAdd(E.t, E.r)
        [] E.e = "run" -> Begin(E.id)
        [] E.e = "ran" -> End(E.id)
        [] E.e = "des?" -> CallDestroy(E.t, E.g)
        [] E.e = "des" -> RetDestroy(E.t, E.r)
        [] E.e = "end" -> /\ mode = "gone" /\ took = {} /\ busy = {} /\ \A c \in Callers : pend[c].k = "idle"
                          /\ UNCHANGED pvars
        [] OTHER -> FALSE
TInit == PoolInit /\ t \in DOMAIN Traces /\ i = 1 /\ want = [c \in Callers |-> 0]
\* Effects are postponed until an event needs them: they commute with every
\* event that is possible without them.
Waits == CASE E.e = "add" -> ~pend[E.t].eff
           [] E.e = "des" -> ~pend[E.t].eff
           [] E.e = "run" -> E.id \notin took
           [] OTHER -> FALSE
\* want: the result a call is going to return (noted at its begin)
Hidden == \/ Take /\ (E.e = "add" => Len(q) = room)
          \/ \E c \in Callers : (DoAdd(c) /\ pend'[c].r = want[c]) \/ DoDestroy(c)
TNext == /\ i <= Len(Traces[t]) /\ UNCHANGED t
         /\ \/ Ev /\ i' = i + 1 /\ want' = IF E.e = "add?" THEN [want EXCEPT ![E.t] = E.w] ELSE want
            \/ Waits /\ Hidden /\ UNCHANGED <<i, want>>
TSpec == TInit /\ [][TNext]_<<size, room, mode, q, took, busy, done, accepted, pend, t, i, want>>
Report == i = Len(Traces[t]) + 1 => PrintT(<<"ACCEPT", t>>)
Where == PrintT(<<"AT", t, i>>)
=============================================================================
