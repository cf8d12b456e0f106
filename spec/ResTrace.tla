------------------------------ MODULE ResTrace ------------------------------
(* Executions of the real server against Res: descriptors are taken and given *)
(* back once; at every mark, where the server has nothing to do and the same  *)
(* clients have come and gone once more, exactly what is open is held, and    *)
(* the level of what is allocated does not rise beyond what the warm-up       *)
(* needed.  While connections are looked at together the level may not rise   *)
(* at all; a rise is confirmed with many repetitions, where it counts when    *)
(* it goes on (half a block or 8 bytes for each).                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
VARIABLES open,   \* descriptor -> connection
          marks, top, \* marks seen; level of the warm-up
          ends,   \* levels at the ends of servers
          t, k
vars == <<open, marks, top, ends, t, k>>
Traces == JsonDeserialize("traces.json")
T == Traces[t]
Zero == [blk |-> 0, byt |-> 0, rfds |-> 0, thr |-> 0]
Max(a, b) == IF a > b THEN a ELSE b
Join(a, b) == [x \in DOMAIN a |-> Max(a[x], b[x])]
Lev(e) == [blk |-> e.blk, byt |-> e.byt, rfds |-> e.rfds, thr |-> e.thr]
Init == open = <<>> /\ marks = 0 /\ top = Zero /\ ends = <<>> /\ t \in DOMAIN Traces /\ k = 1

Accept(e) == e.fd \notin DOMAIN open /\ open' = (e.fd :> e.c) @@ open /\ UNCHANGED <<marks, top, ends>>
Give(e) == /\ e.fd \in DOMAIN open /\ open[e.fd] = e.c
           /\ open' = [f \in DOMAIN open \ {e.fd} |-> open[f]] /\ UNCHANGED <<marks, top, ends>>
\* how far above the warm-up: nothing, or what is kept once and for all
\* and less than one block for each few repetitions
Slack(m) == IF T.confirm THEN [blk |-> 40 + m \div 8, byt |-> 16384 + 2 * m, rfds |-> 0, thr |-> 0] ELSE Zero
Within(a, b) == \A x \in DOMAIN a : a[x] <= b[x]
Plus(a, b) == [x \in DOMAIN a |-> a[x] + b[x]]
Mark(e) == /\ e.fds = Cardinality(DOMAIN open) /\ marks' = marks + 1
           /\ IF marks < T.warm THEN top' = Join(top, Lev(e))
              ELSE Within(Lev(e), Plus(top, Slack(marks + 1 - T.warm))) /\ top' = top
           /\ UNCHANGED <<open, ends>>
\* n connections were open when the server was told to stop
End(e) == /\ e.fds = 0 /\ open = <<>>
          /\ ends # <<>> => Within(Lev(e), Plus([ends[1].l EXCEPT !.byt = @ + 512], Slack(e.n - ends[1].n)))  \* lengths of what is kept once vary
          /\ ends' = Append(ends, [n |-> e.n, l |-> Lev(e)]) /\ UNCHANGED <<open, marks, top>>
Step(e) == CASE e.k = "accept" -> Accept(e)
             [] e.k = "close" -> Give(e)
             [] e.k = "mark" -> Mark(e)
             [] e.k = "end" -> End(e)
             [] OTHER -> FALSE
Next == k <= Len(T.ev) /\ Step(T.ev[k]) /\ k' = k + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
Report == k > Len(T.ev) => PrintT(<<"ACCEPT", t>>)
Stuck == ~ENABLED Next /\ k <= Len(T.ev) => PrintT(<<"STUCK", t, k>>)
=============================================================================
