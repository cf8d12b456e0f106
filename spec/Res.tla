-------------------------------- MODULE Res ---------------------------------
(* What connections of a server hold, from every stage they can be in to      *)
(* every way they can end.  A connection holds a descriptor, its session and, *)
(* depending on what happened, unread input, the request, the state the       *)
(* application and the extensions keep, frames of an incomplete message and   *)
(* output not yet written.  When it has ended, the server gives everything    *)
(* back, in whatever order, the descriptor once.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Conns,     \* the connections (one slot each, used again and again)
          MaxRaw,    \* steps of the client before it is a WebSocket connection
          MaxWs,     \* and after
          Uses       \* how often each slot is used
Pieces == {"line", "head", "body"}
Refusals == {"version", "key", "method", "uri", "header", "payload", "garbage", "icon"}
Requests == {"plain", "ext"}
Bads == {"opcode", "utf8", "stray", "large", "many", "rsv"}
Ends == {"fin", "rst", "half", "wrerr", "timeout", "wait"}

VARIABLES st,        \* none, raw (before the upgrade), ws, closing (the application has closed it), failing, over
          held,      \* what it holds
          n,         \* steps made in this stage
          used,      \* how often the slot has been used
          shut,      \* descriptors given back in this use
          stop,      \* the server is stopping
          h          \* the history
vars == <<st, held, n, used, shut, stop, h>>

Kinds == {"fd", "session", "input", "request", "app", "ext", "frames", "output"}
Init == /\ st = [c \in Conns |-> "none"] /\ held = [c \in Conns |-> {}] /\ n = [c \in Conns |-> 0]
        /\ used = [c \in Conns |-> 0] /\ shut = [c \in Conns |-> 0] /\ stop = FALSE /\ h = <<>>

Do(c, a, s, more, less, k) ==
    /\ ~stop /\ st' = [st EXCEPT ![c] = s] /\ held' = [held EXCEPT ![c] = (@ \cup more) \ less]
    /\ n' = [n EXCEPT ![c] = k] /\ h' = Append(h, <<c, a>>) /\ UNCHANGED <<used, shut, stop>>

Connect(c) == /\ ~stop /\ st[c] = "none" /\ used[c] < Uses
              /\ st' = [st EXCEPT ![c] = "raw"] /\ held' = [held EXCEPT ![c] = {"fd", "session"}]
              /\ n' = [n EXCEPT ![c] = 0] /\ used' = [used EXCEPT ![c] = @ + 1] /\ shut' = [shut EXCEPT ![c] = 0]
              /\ h' = Append(h, <<c, "conn">>) /\ UNCHANGED stop
\* before the upgrade
Piece(c, p) == st[c] = "raw" /\ n[c] < MaxRaw /\ "input" \notin held[c] /\ Do(c, p, "raw", {"input"}, {}, n[c] + 1)
Refused(c, r) == /\ st[c] = "raw" /\ n[c] < MaxRaw /\ "input" \notin held[c]
                 /\ Do(c, r, IF r \in {"version", "key", "method", "garbage", "icon"} THEN "raw" ELSE "failing", {}, {}, n[c] + 1)
Upgrade(c, r) == /\ st[c] = "raw" /\ "input" \notin held[c]
                 /\ Do(c, r, "ws", {"request", "app"} \cup (IF r = "ext" THEN {"ext"} ELSE {}), {}, 0)
\* after it
Can(c) == st[c] = "ws" /\ n[c] < MaxWs /\ "input" \notin held[c]
More(c, a, more, less) == Can(c) /\ Do(c, a, "ws", more, less, n[c] + 1)
Msg(c) == "frames" \notin held[c] /\ More(c, "msg", {}, {})
Zip(c) == {"frames"} \cap held[c] = {} /\ "ext" \in held[c] /\ More(c, "zip", {}, {})
Frag(c) == "frames" \notin held[c] /\ More(c, "frag", {"frames"}, {})
ZipFrag(c) == "frames" \notin held[c] /\ "ext" \in held[c] /\ More(c, "zipfrag", {"frames"}, {})
Rest(c) == "frames" \in held[c] /\ More(c, "rest", {}, {"frames"})
Ping(c) == More(c, "ping", {}, {})
Torn(c, a) == More(c, a, {"input"}, {})                    \* part of a frame
Stall(c) == "output" \notin held[c] /\ "frames" \notin held[c] /\ More(c, "stall", {"output"}, {})  \* asks for much and does not read
Drain(c) == "output" \in held[c] /\ More(c, "drain", {}, {"output"})
Tell(c) == "frames" \notin held[c] /\ Can(c)               \* a message for everybody else
           /\ ~stop /\ st' = st /\ n' = [n EXCEPT ![c] = @ + 1] /\ h' = Append(h, <<c, "tell">>)
           /\ UNCHANGED <<held, used, shut, stop>>
Bad(c, b) == Can(c) /\ ("frames" \in held[c]) = (b = "many") /\ Do(c, b, "failing", {}, {}, n[c] + 1)
AppClose(c) == Can(c) /\ "frames" \notin held[c] /\ Do(c, "appclose", "closing", {}, {}, 0)
Close(c) == st[c] \in {"ws", "closing"} /\ "input" \notin held[c] /\ n[c] <= MaxWs /\ Do(c, "close", "failing", {}, {}, 0)
\* the ways it ends
Possible(c) == CASE st[c] = "raw" -> {"fin", "rst", "half", "timeout"}
                 [] st[c] = "ws" -> {"fin", "rst", "half", "timeout"} \cup (IF {"input", "frames"} \cap held[c] = {} THEN {"wrerr"} ELSE {})
                 [] st[c] = "closing" -> {"fin", "rst", "timeout"}
                 [] st[c] = "failing" -> {"fin", "rst", "wait"}
                 [] OTHER -> {}
End(c, e) == e \in Possible(c) /\ Do(c, e, "over", {}, {}, 0)
\* the server gives back what an ended connection held; it may end a failed one itself
Fail(c) == st[c] = "failing" /\ ~stop /\ st' = [st EXCEPT ![c] = "over"] /\ UNCHANGED <<held, n, used, shut, stop, h>>
Release(c, k) == /\ st[c] = "over" \/ stop
                 /\ k \in held[c] /\ held' = [held EXCEPT ![c] = @ \ {k}]
                 /\ shut' = [shut EXCEPT ![c] = @ + (IF k = "fd" THEN 1 ELSE 0)]
                 /\ st' = [st EXCEPT ![c] = IF held'[c] = {} THEN "none" ELSE "over"]
                 /\ UNCHANGED <<n, used, stop, h>>
Stop == ~stop /\ stop' = TRUE /\ UNCHANGED <<st, held, n, used, shut, h>>

Client(c) == \/ Connect(c) \/ \E p \in Pieces : Piece(c, p) \/ \E r \in Refusals : Refused(c, r)
             \/ \E r \in Requests : Upgrade(c, r)
             \/ Msg(c) \/ Zip(c) \/ Frag(c) \/ ZipFrag(c) \/ Rest(c) \/ Ping(c) \/ Torn(c, "hdr") \/ Torn(c, "pay")
             \/ Stall(c) \/ Drain(c) \/ Tell(c) \/ \E b \in Bads : Bad(c, b) \/ AppClose(c) \/ Close(c)
             \/ \E e \in Ends : End(c, e)
Server(c) == Fail(c) \/ \E k \in Kinds : Release(c, k)
Next == Stop \/ \E c \in Conns : Client(c) \/ Server(c)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Quiet == \A c \in Conns : ~ENABLED Server(c)
Alive(c) == st[c] \in {"raw", "ws", "closing"}
\* when the server has nothing to do, only what is open is held
NothingLeft == Quiet => \A c \in Conns : held[c] # {} => Alive(c) /\ ~stop
OnceShut == \A c \in Conns : shut[c] <= 1 /\ (st[c] = "none" /\ used[c] > 0 => shut[c] = 1)
\* no more is needed than for the connections open (or being ended) now
Level == LET F[S \in SUBSET Conns] == IF S = {} THEN 0 ELSE LET c == CHOOSE x \in S : TRUE IN Cardinality(held[c]) + F[S \ {c}] IN F[Conns]
Bound == Level <= Cardinality(Kinds) * Cardinality({c \in Conns : st[c] # "none"})
\* for the exploration of the states without their history
View == <<st, held, n, used, shut, stop>>

\* histories of the clients alone, emitted when all have ended
HistNext == \E c \in Conns : Client(c)
HistSpec == Init /\ [][HistNext]_vars
Emit == (\A c \in Conns : st[c] = "over" /\ used[c] = Uses) => PrintT(<<"CASE", ToJson([h |-> h])>>)
=============================================================================
