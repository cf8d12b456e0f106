------------------------------ MODULE ExtLife -------------------------------
(* Extensions of a server from its start to its end: each is initialised once *)
(* with its configuration before anything is asked of it and destroyed once   *)
(* after the last connection is gone.                                         *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
VARIABLES up, gone, t, k
vars == <<up, gone, t, k>>
Traces == JsonDeserialize("traces.json")
Names == {Traces[t].loaded[i].n : i \in DOMAIN Traces[t].loaded}
Init == up = {} /\ gone = {} /\ t \in DOMAIN Traces /\ k = 1
Start(n, c) == /\ \E i \in DOMAIN Traces[t].loaded : Traces[t].loaded[i].n = n /\ Traces[t].loaded[i].c = c
               /\ n \notin up \cup gone /\ up' = up \cup {n} /\ UNCHANGED gone
Use(n) == n \in up /\ UNCHANGED <<up, gone>>
Accept == up = Names /\ UNCHANGED <<up, gone>>
Stop(n) == n \in up /\ up' = up \ {n} /\ gone' = gone \cup {n}
End == gone = Names /\ up = {} /\ UNCHANGED <<up, gone>>
Step(e) == CASE e.k = "init" -> Start(e.n, e.c)
             [] e.k = "use" -> Use(e.n)
             [] e.k = "accept" -> Accept
             [] e.k = "destroy" -> Stop(e.n)
             [] e.k = "end" -> End
             [] OTHER -> FALSE
Next == k <= Len(Traces[t].ev) /\ Step(Traces[t].ev[k]) /\ k' = k + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
Report == k > Len(Traces[t].ev) => PrintT(<<"ACCEPT", t>>)
=============================================================================
