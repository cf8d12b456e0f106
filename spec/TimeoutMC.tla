----------------------------- MODULE TimeoutMC ------------------------------
(* The way the server does it: every Period a look at all clients, ending     *)
(* those without life for T and pinging the others; checked against the       *)
(* requirements of Timeout for any behaviour of clients, within a horizon.    *)
EXTENDS Timeout
CONSTANTS Horizon, Responsive     \* clients that answer every ping at once
VARIABLES tick,                   \* time of the next look
          due,                    \* clients still to be looked at this time
          owe                     \* responsive clients that have to answer
mcvars == <<now, c, tick, due, owe>>

MCInit == Init /\ tick = Period /\ due = {} /\ owe = {}
Quiet == due = {} /\ owe = {} /\ \A i \in Conns : c[i].st # "over"
Client(i) ==
  /\ \/ Connect(i)
     \/ c[i].st = "raw" /\ Set(i, [c[i] EXCEPT !.st = "up", !.ping = now, !.life = now])     \* the request and its answer
     \/ Live(c[i]) /\ c[i].life < now /\ Data(i, 0)
     \/ Live(c[i]) /\ Leave(i)
  /\ UNCHANGED <<tick, due, owe>>
Answer(i) == i \in owe /\ Data(i, 0) /\ owe' = owe \ {i} /\ UNCHANGED <<tick, due>>
LookNow == T >= 0 /\ now = tick
Pass == Quiet /\ ~LookNow /\ now < Horizon /\ now' = now + 1 /\ UNCHANGED <<c, tick, due, owe>>
Look == LookNow /\ Quiet /\ tick' = tick + Period /\ due' = {i \in Conns : Live(c[i])} /\ UNCHANGED <<now, c, owe>>
\* the server decides without regard to what Timeout allows (SeeOk)
See(i) ==
  /\ i \in due /\ due' = due \ {i} /\ UNCHANGED tick
  /\ IF ~Live(c[i]) THEN UNCHANGED <<now, c, owe>>
     ELSE IF now - c[i].life >= T THEN Set(i, [c[i] EXCEPT !.st = "over", !.told = now]) /\ UNCHANGED owe
     ELSE IF P > 0 /\ c[i].st = "up" THEN Set(i, [c[i] EXCEPT !.ping = now, !.n = @ + 1]) /\ owe' = owe \cup ({i} \cap Responsive)
     ELSE UNCHANGED <<now, c, owe>>
End(i) == c[i].st = "over" /\ Closed(i) /\ due' = due \ {i} /\ owe' = owe \ {i} /\ UNCHANGED tick
MCNext == (\E i \in Conns : Client(i) \/ Answer(i) \/ See(i) \/ End(i)) \/ Pass \/ Look
MCSpec == MCInit /\ [][MCNext]_mcvars

\* nothing the server decides is forbidden
SeeOk == \A i \in due : Live(c[i]) => IF now - c[i].life >= T THEN GiveUpOk(c[i]) ELSE P > 0 /\ c[i].st = "up" => PingOk(c[i])
\* when nothing remains to be done now, nothing is overdue the next moment
InTime == Quiet /\ ~LookNow => ~Overdue(now + 1)
\* who answers is not given up
Faithful == [][\A i \in Responsive : c[i].st = "up" /\ (\E j \in due : j = i) /\ c'[i].st = "over" => now - c[i].life < T]_mcvars
Off == T < 0 => \A i \in Conns : c[i].n = 0
=============================================================================
