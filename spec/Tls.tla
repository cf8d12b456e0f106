-------------------------------- MODULE Tls ---------------------------------
(* Connections over TLS.  A client puts what it has to say into records as it *)
(* likes: parts of messages, several messages, with key updates in between.   *)
(* The server takes the records one after another, whatever they hold, and    *)
(* does what it would do without them.  Handshakes that are refused, that     *)
(* stay incomplete, and noise in an established connection end that           *)
(* connection and mean nothing to the others.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Conns,
          Good,      \* ways to do the handshake that the server accepts
          Refused,   \* ways that it refuses
          Silent,    \* ways that leave it incomplete
          Sizes,     \* of messages
          MaxMsgs, MaxSteps,
          Least,     \* steps of an accepted client before it ends (for random walks)
          Ends       \* how clients end
VARIABLES kind, cst, pend, ms, w, stalled, n, h,       \* clients
          sst, part, got, ans, seen                    \* server, and what has come back
cvars == <<kind, cst, pend, ms, w, stalled, n, h>>
svars == <<sst, part, got, ans, seen>>
vars == <<cvars, svars>>

All(x) == [c \in Conns |-> x]
Init == /\ kind = All("") /\ cst = All("none") /\ pend = All(<<>>) /\ ms = All(<<>>) /\ w = All(<<>>) /\ stalled = All(FALSE)
        /\ n = All(0) /\ h = <<>>
        /\ sst = All("none") /\ part = All(0) /\ got = All(<<>>) /\ ans = All(<<>>) /\ seen = All(<<>>)

Say(c, a, x) == h' = Append(h, <<c, a, ToString(x)>>)
\* 0: the request for the upgrade; 1, 2, ...: messages; -1: the close frame
Halves(m) == <<<<m, 1>>, <<m, 2>>>>
Made(c, m) == \E i \in 1 .. Len(ms[c]) : ms[c][i].m = m
Next0(c) == IF ms[c] = <<>> THEN 0 ELSE Len(ms[c])

Open(c, k) == /\ cst[c] = "none"
              /\ kind' = [kind EXCEPT ![c] = k] /\ cst' = [cst EXCEPT ![c] = "up"]
              /\ w' = [w EXCEPT ![c] = IF k \in Silent THEN <<>> ELSE <<[t |-> "hello", u |-> <<>>]>>]
              /\ sst' = [sst EXCEPT ![c] = "tls"]
              /\ Say(c, "open", k) /\ UNCHANGED <<pend, ms, stalled, n, part, got, ans, seen>>
Up(c) == cst[c] = "up" /\ n[c] < MaxSteps /\ n' = [n EXCEPT ![c] = @ + 1] /\ kind[c] \notin Silent
\* a client says nothing more before its request is answered
Asked(c) == ms[c] # <<>> /\ \A i \in 1 .. Len(pend[c]) : pend[c][i][1] # 0
\* something more to say
Make(c, z) == /\ Up(c) /\ Len(ms[c]) <= MaxMsgs /\ ~Made(c, -1) /\ (kind[c] \in Refused => ms[c] = <<>>)
              /\ (ms[c] = <<>>) = (z = "req") /\ (z = "bye" => pend[c] = <<>>)
              /\ (z # "req" => Asked(c))
              /\ LET m == IF z = "bye" THEN -1 ELSE Next0(c) IN
                 /\ ms' = [ms EXCEPT ![c] = Append(@, [m |-> m, z |-> z])]
                 /\ pend' = [pend EXCEPT ![c] = @ \o Halves(m)]
              /\ Say(c, "make", z) /\ UNCHANGED <<kind, cst, w, stalled, svars>>
\* a record of the first j parts not yet sent
Rec(c, j) == /\ Up(c) /\ j \in 1 .. Len(pend[c])
             /\ w' = [w EXCEPT ![c] = Append(@, [t |-> "data", u |-> SubSeq(pend[c], 1, j)])]
             /\ pend' = [pend EXCEPT ![c] = SubSeq(@, j + 1, Len(@))]
             /\ Say(c, "rec", j) /\ UNCHANGED <<kind, cst, ms, stalled, svars>>
Update(c) == /\ Up(c) /\ kind[c] \in Good
             /\ w' = [w EXCEPT ![c] = Append(@, [t |-> "update", u |-> <<>>])]
             /\ Say(c, "update", "") /\ UNCHANGED <<kind, cst, pend, ms, stalled, svars>>
Stall(c) == /\ Up(c) /\ kind[c] \in Good /\ Asked(c) /\ ~stalled[c] /\ stalled' = [stalled EXCEPT ![c] = TRUE]
            /\ Say(c, "stall", "") /\ UNCHANGED <<kind, cst, pend, ms, w, svars>>
Drain(c) == /\ Up(c) /\ stalled[c] /\ stalled' = [stalled EXCEPT ![c] = FALSE]
            /\ Say(c, "drain", "") /\ UNCHANGED <<kind, cst, pend, ms, w, svars>>
\* notify: the alert that announces the end, noise: bytes that are no record,
\* wait: until the server closes; fin, rst
CanEnd(c, e) == (kind[c] \in Good => n[c] >= Least) /\
               CASE e = "wait" -> kind[c] \in Refused \/ (Made(c, -1) /\ pend[c] = <<>> /\ ~stalled[c])
                  [] e \in {"notify", "noise"} -> kind[c] \in Good /\ ~Made(c, -1) /\ ~stalled[c]
                  [] OTHER -> TRUE
End(c, e) == /\ cst[c] = "up" /\ CanEnd(c, e)
             /\ cst' = [cst EXCEPT ![c] = e]
             /\ w' = [w EXCEPT ![c] = Append(@, [t |-> e, u |-> <<>>])]
             /\ Say(c, "end", e) /\ UNCHANGED <<kind, pend, ms, stalled, n, svars>>
Client(c) == \/ \E k \in Good \cup Refused \cup Silent : Open(c, k)
             \/ \E z \in Sizes \cup {"req", "bye"} : Make(c, z)
             \/ \E j \in {1, 2, 3, Len(pend[c])} : Rec(c, j)
             \/ Update(c) \/ Stall(c) \/ Drain(c) \/ \E e \in Ends : End(c, e)

----------------------------------------------------------------------------
\* the server: what a complete message does; z is what the connection is now
RECURSIVE Fold(_, _)
Fold(z, u) ==
    IF u = <<>> \/ z.s \notin {"http", "ws"} THEN z
    ELSE LET x == u[1] IN
         Fold(IF x[2] = 1 THEN [z EXCEPT !.p = 1]
              ELSE CASE x[1] = 0 -> [z EXCEPT !.p = 0, !.s = "ws", !.a = Append(@, 0)]
                     [] x[1] = -1 -> [z EXCEPT !.p = 0, !.s = "over", !.a = Append(@, -1)]
                     [] OTHER -> [z EXCEPT !.p = 0, !.g = Append(@, x[1]), !.a = Append(@, x[1])], Tail(u))
Take(c) == /\ w[c] # <<>> /\ sst[c] \notin {"none", "over"}
           /\ w' = [w EXCEPT ![c] = Tail(@)]
           /\ LET r == Head(w[c])
                  z == CASE r.t = "hello" -> [s |-> IF kind[c] \in Good THEN "http" ELSE "over", p |-> 0, g |-> got[c], a |-> ans[c]]
                         [] r.t = "data" -> Fold([s |-> sst[c], p |-> part[c], g |-> got[c], a |-> ans[c]], r.u)
                         [] r.t \in {"update", "wait"} -> [s |-> sst[c], p |-> part[c], g |-> got[c], a |-> ans[c]]
                         [] OTHER -> [s |-> "over", p |-> part[c], g |-> got[c], a |-> ans[c]] IN
              sst' = [sst EXCEPT ![c] = z.s] /\ part' = [part EXCEPT ![c] = z.p] /\ got' = [got EXCEPT ![c] = z.g] /\ ans' = [ans EXCEPT ![c] = z.a]
           /\ UNCHANGED <<kind, cst, pend, ms, stalled, n, h, seen>>
\* what was answered arrives
Arrive(c) == /\ ~stalled[c] /\ Len(seen[c]) < Len(ans[c]) /\ seen' = [seen EXCEPT ![c] = SubSeq(ans[c], 1, Len(@) + 1)]
             /\ UNCHANGED <<cvars, sst, part, got, ans>>
Server(c) == Take(c) \/ Arrive(c)
Next == \E c \in Conns : Client(c) \/ Server(c)
Spec == Init /\ [][Next]_vars

\* what the bytes alone say, however they were put into records
Sent(c) == IF kind[c] \in Good THEN [i \in 1 .. Len(ms[c]) |-> ms[c][i].m] ELSE <<>>
Whole(c) == SelectSeq(Sent(c), LAMBDA m : \A i \in 1 .. Len(pend[c]) : pend[c][i][1] # m)
Quiet(c) == ~ENABLED Take(c)
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Intact == \A c \in Conns : /\ Prefix(ans[c], Whole(c)) /\ Prefix(seen[c], ans[c])
                           /\ got[c] = SelectSeq(ans[c], LAMBDA m : m > 0)
Complete == \A c \in Conns : Quiet(c) /\ w[c] = <<>> => ans[c] = Whole(c)
Nothing == \A c \in Conns : kind[c] \notin Good => got[c] = <<>> /\ ans[c] = <<>>
\* what happens to one connection changes nothing for another
Apart == [][\A c \in Conns : \A d \in Conns \ {c} : (sst'[c] # sst[c] \/ got'[c] # got[c]) => sst'[d] = sst[d] /\ got'[d] = got[d] /\ ans'[d] = ans[d]]_vars
View == <<kind, cst, pend, ms, w, stalled, n, svars>>

HistSpec == Init /\ [][\E c \in Conns : Client(c)]_vars
Case == [h |-> h, r |-> [i \in 1 .. Cardinality(Conns) |->
          [kind |-> kind[i], good |-> kind[i] \in Good, end |-> cst[i], a |-> Whole(i), stalled |-> stalled[i],
           closed |-> cst[i] \in {"wait", "notify", "noise"}]]]
Emit == (\A c \in Conns : cst[c] \notin {"none", "up"}) => PrintT(<<"CASE", ToJson(Case)>>)
=============================================================================
