------------------------------ MODULE Timeout -------------------------------
(* Time and connections: when a client is pinged and when it is given up.     *)
(* Times are milliseconds.  Life is any sign of the client (what it sends);   *)
(* what the server sends is none.                                             *)
EXTENDS Integers, FiniteSets

CONSTANTS Conns,
          T,        \* client timeout, below 0: none
          P,        \* pings within the client timeout
          R,        \* read timeout, below 0: none
          W,        \* write timeout, below 0: none
          Slack     \* tolerance of the clocks

VARIABLES now, c
vars == <<now, c>>

Conn0 == [st |-> "none",     \* none, raw (connected), up (upgraded), over (its end is on the way), closed
          life |-> 0,        \* last sign of life
          before |-> 0,      \* the last one before now
          ping |-> 0,        \* last ping, or when it became up
          n |-> 0,           \* pings so far
          mid |-> 0,         \* the data received end inside a message (1), a frame or a request (2)
          late |-> -1,       \* when such data came later than the read timeout allows
          cap |-> FALSE,     \* the client does not read
          stop |-> -1,       \* when it began not to read
          free |-> -1,       \* when it began to read again
          slow |-> -1,       \* when the server found that it did not for longer than the write timeout
          must |-> -1,       \* when one of these certainly was the case
          told |-> 0]        \* when it became over

Period == IF P > 0 THEN T \div P ELSE T
Live(x) == x.st \in {"raw", "up"}
Max(a, b) == IF a > b THEN a ELSE b

Init == now = 0 /\ c = [i \in Conns |-> Conn0]

\* ------------------------------------------------- what must have happened
\* A client without life is given up at the latest one period after the timeout;
\* that what is sent cannot be delivered is noticed by the next ping, and that
\* it can be is a sign of life, too
Signs(x) == Max(x.life, Max(x.free, IF x.stop # -1 THEN x.stop + Period ELSE -1))
EndOverdue(x, t) == T >= 0 /\ Live(x) /\ t > Signs(x) + T + Period + Slack
\* An open client is pinged every period
PingOverdue(x, t) == T >= 0 /\ P > 0 /\ x.st = "up" /\ ~x.cap /\ t > Max(x.ping, x.free) + Period + Slack
\* What is slower than the read or the write timeout allows ends the connection
SlowOverdue(x, t) == Live(x) /\ x.must # -1 /\ t > x.must
\* Who was told that the connection ends has it closed
CloseOverdue(x, t) == x.st = "over" /\ t > x.told + Slack
Overdue(t) == \E i \in Conns : EndOverdue(c[i], t) \/ PingOverdue(c[i], t) \/ CloseOverdue(c[i], t) \/ SlowOverdue(c[i], t)

\* --------------------------------------------------- what is allowed, when
\* what is decided as the client leaves
Ending(x) == x.st = "over" /\ x.told = now
\* the first ping may come any time, and what could not be sent comes at once
\* (then the last one was on time, but it is not known when it was due)
PingOk(x) == /\ T >= 0 /\ P > 0 /\ (x.st = "up" \/ Ending(x))
             /\ \/ x.n = 0 \/ now - x.ping >= Period - Slack
                \/ x.free # -1 /\ (x.free = now \/ x.ping <= x.free)
\* what comes at the same instant may be too late, and what comes while the
\* server cannot get rid of its output is not received before it can
Life(x) == IF x.life = now \/ x.cap \/ x.free = now THEN x.before ELSE x.life
GiveUpOk(x) == T >= 0 /\ (Live(x) \/ Ending(x)) /\ now - Life(x) >= T

\* ------------------------------------------------------------------ actions
Set(i, x) == c' = [c EXCEPT ![i] = x] /\ UNCHANGED now
Advance(t) == t >= now /\ ~Overdue(t) /\ now' = t /\ UNCHANGED c
Connect(i) == c[i].st = "none" /\ Set(i, [Conn0 EXCEPT !.st = "raw", !.life = now, !.before = now])
Upgraded(i) == c[i].st = "raw" /\ Set(i, [c[i] EXCEPT !.st = "up", !.ping = now, !.n = 0])
\* data of the client, mid tells where they end
Late(x) == R >= 0 /\ x.mid > 0 /\ now - x.life >= R
Data(i, mid) ==
  LET x == c[i] IN
  Set(i, [x EXCEPT !.life = now, !.before = Life(x), !.mid = mid,
                   !.late = IF Late(x) THEN now ELSE @,
                   !.must = IF Late(x) /\ x.mid = 2 /\ ~x.cap /\ now - x.life >= R + Slack THEN now ELSE @])
\* the client stops to read, or begins again
Slow(x) == x.cap /\ W >= 0 /\ now - x.stop >= W
\* (the ping has filled the connection)
Filled(x) == x.st = "up" /\ T >= 0 /\ P > 0 /\ now - x.stop > W + Period + Slack
Stall(i, b) ==
  LET x == c[i] IN
  Set(i, [x EXCEPT !.cap = b, !.before = Life(x),
                   !.stop = IF ~x.cap /\ b THEN now ELSE @,
                   !.free = IF x.cap /\ ~b THEN now ELSE @,
                   !.slow = IF ~b /\ Slow(x) THEN now ELSE @,
                   !.must = IF ~b /\ Slow(x) /\ Filled(x) THEN now ELSE @])
Ping(i) == PingOk(c[i]) /\ Set(i, [c[i] EXCEPT !.ping = now, !.n = @ + 1])
GiveUp(i) == GiveUpOk(c[i]) /\ Set(i, [c[i] EXCEPT !.st = "over", !.told = now])
\* the client left, asked for the end or broke the rules
Leave(i) == Set(i, IF Live(c[i]) THEN [c[i] EXCEPT !.st = "over", !.told = now] ELSE c[i])
Closed(i) ==
  /\ \/ c[i].st = "over"
     \/ (c[i].st = "raw" \/ c[i].cap) /\ GiveUpOk(c[i])       \* nothing can be said to it
     \/ c[i].late = now \/ c[i].slow = now
  /\ Set(i, [c[i] EXCEPT !.st = "closed"])
\* the server stops
Stop == c' = [i \in Conns |-> IF Live(c[i]) THEN [c[i] EXCEPT !.st = "over", !.told = now] ELSE c[i]] /\ UNCHANGED now
=============================================================================
