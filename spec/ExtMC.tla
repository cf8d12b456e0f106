------------------------------- MODULE ExtMC --------------------------------
(* Ext with a client and an echoing application: what the client means is     *)
(* what the application gets, and the other way around.                       *)
EXTENDS Ext, TLC, Json
CONSTANTS Loads, Offs, Kinds, MaxMsgs
VARIABLES h,      \* kinds of the messages sent
          want, got, heard
mvars == <<vars, h, want, got, heard>>

RECURSIVE Enc(_, _), Dec(_, _)
Enc(fs, es) == IF es = <<>> THEN fs ELSE LET e == Head(es) ms == OutM(e, fs) IN Enc([i \in DOMAIN ms |-> OutF(e, ms[i])], Tail(es))
Dec(fs, es) == IF es = <<>> THEN fs ELSE LET e == Head(es) ms == [i \in DOMAIN fs |-> InF(e, fs[i])] IN Dec(InM(e, ms), Tail(es))
Flatten(fs) == [i \in DOMAIN fs |-> [fin |-> fs[i].fin, op |-> fs[i].op, rsv |-> fs[i].rsv, x |-> <<>>, b |-> fs[i].x \o fs[i].b]]
\* kind of message: k (how it is encoded), o (opcode), w (its text, one part a frame)
Plain(k) == [i \in DOMAIN k.w |-> [fin |-> i = Len(k.w), op |-> IF i = 1 THEN k.o ELSE 0, rsv |-> {}, x |-> <<>>, b |-> k.w[i]]]
Msg(k) == CASE k.k = "right" -> Flatten(Enc(Plain(k), acc))
            [] k.k = "bare" -> Plain(k)
            [] k.k = "swap" -> Flatten(Enc(Plain(k), Reverse(acc)))
            [] k.k = "bits" -> [Flatten(Enc(Plain(k), acc)) EXCEPT ![1].rsv = @ \cup {1}]
            [] k.k = "tail" -> [Flatten(Enc(Plain(k), acc)) EXCEPT ![Len(k.w)].rsv = @ \cup {3}]
            [] k.k = "part" -> Flatten(Enc(Plain(k), Tail(acc \o <<[n |-> "", t |-> "", m |-> "none", b |-> 0, d |-> "", a |-> ""]>>)))
            [] k.k = "pong" -> <<[fin |-> TRUE, op |-> 10, rsv |-> {1}, x |-> <<>>, b |-> k.w[1]]>>
            [] k.k = "ping" -> <<[fin |-> TRUE, op |-> 9, rsv |-> {2}, x |-> <<>>, b |-> k.w[1]]>>
\* extensions that mark with the same bit cannot be told apart
Apart == \A i, j \in DOMAIN acc : i # j => acc[i].b = 0 \/ acc[i].b # acc[j].b
Good(k) == Apart /\ (k.k = "right" \/ (Len(acc) = 1 /\ k.k = "swap"))

MCInit == Init0 /\ loaded \in Loads /\ offers \in Offs /\ h = <<>> /\ want = <<>> /\ got = <<>> /\ heard = <<>>
Keep == UNCHANGED <<h, want, got, heard>>
Client(k) == /\ st = "open" /\ Len(h) < MaxMsgs /\ inq = <<>> /\ inp = <<>>
             /\ inq' = Append(inq, Msg(k)) /\ h' = Append(h, [k |-> k.k, f |-> Msg(k)])
             /\ want' = Append(want, IF Good(k) THEN Texts(Plain(k)) ELSE <<"?">>)
             /\ UNCHANGED <<loaded, offers, asked, acc, st, inp, outp, ready, pend, wire, failed, told, got, heard>>
MIn == \/ \E i \in DOMAIN acc : InFrame(acc[i].n, Enter.fs[Enter.done + 1]) /\ Keep
       \/ \E i \in DOMAIN acc : InFrames(acc[i].n, Enter.fs) /\ Keep
CanFrame == Enter.left # <<>> /\ Enter.done < Len(Enter.fs)
Echo == /\ ready # <<>> /\ LET m == Head(ready) IN
           /\ got' = Append(got, m.b) /\ ready' = Tail(ready)
           /\ pend' = pend \cup {[id |-> Len(got), op |-> m.op, b |-> m.b, must |-> TRUE]}
        /\ UNCHANGED <<loaded, offers, asked, acc, st, inq, inp, outp, wire, failed, told, h, want, heard>>
Cuts(m) == {<<[fin |-> TRUE, op |-> m.op, rsv |-> {}, x |-> <<>>, b |-> m.b]>>}
           \cup {<<[fin |-> FALSE, op |-> m.op, rsv |-> {}, x |-> <<>>, b |-> SubSeq(m.b, 1, i)], [fin |-> TRUE, op |-> 0, rsv |-> {}, x |-> <<>>, b |-> SubSeq(m.b, i + 1, Len(m.b))]>> : i \in 1..Len(m.b) - 1}
MOut == \/ \E m \in pend : \E fs \in Cuts(m) : acc # <<>> /\ (OutFirst(fs, acc[1].n, "whole", fs) \/ OutFirst(fs, acc[1].n, "frame", <<fs[1]>>)) /\ Keep
        \/ outp # <<>> /\ \E i \in DOMAIN acc : (\/ outp.done < Len(outp.fs) /\ OutFrame(acc[i].n, outp.fs[outp.done + 1])
                                               \/ OutFrames(acc[i].n, outp.fs)) /\ Keep
MWire == /\ wire # <<>> /\ Wire(Flat(Head(wire))) /\ heard' = Append(heard, Head(wire)) /\ UNCHANGED <<h, want, got>>
MCNext == \/ (Skip \/ (asked < Len(offers) /\ Ask(offers[asked + 1].n, offers[asked + 1].p)) \/ Answer([i \in DOMAIN acc |-> [n |-> acc[i].n, a |-> acc[i].a]]) \/ Stray) /\ Keep
          \/ \E k \in Kinds : Client(k)
          \/ (CanFrame /\ \E i \in DOMAIN acc : InFrame(acc[i].n, Enter.fs[Enter.done + 1])) /\ Keep
          \/ (\E i \in DOMAIN acc : InFrames(acc[i].n, Enter.fs)) /\ Keep
          \/ (acc # <<>> /\ Echo) \/ MOut \/ MWire
MCSpec == MCInit /\ [][MCNext]_mvars

\* what was meant arrives
Meant == \A i \in DOMAIN got : want[i] = <<"?">> \/ got[i] = want[i]
\* whole messages on the wire give what the application sent
RECURSIVE Whole_(_)
Whole_(fs) == IF fs = <<>> THEN <<>>
              ELSE LET e == {i \in DOMAIN fs : fs[i].fin} IN
                   IF e = {} THEN <<>> ELSE LET n == CHOOSE i \in e : \A j \in e : i <= j IN <<SubSeq(fs, 1, n)>> \o Whole_(SubSeq(fs, n + 1, Len(fs)))
Heard == Apart => LET ms == Whole_(heard) IN \A i \in DOMAIN ms : Texts(Dec(Flatten(ms[i]), Reverse(acc))) \in ToSet(got)
                                                     /\ \A f \in ToSet(Dec(Flatten(ms[i]), Reverse(acc))) : f.rsv = {}
\* only who was offered and wanted it takes part
Asked == \A i \in DOMAIN acc : /\ \E j \in DOMAIN offers : offers[j].n = acc[i].n /\ Takes(acc[i], offers[j])
                              /\ \A j \in DOMAIN acc : i # j => acc[i].n # acc[j].n
\* bits nobody takes are an error
Strict == \A i \in DOMAIN h : i <= Len(got) => h[i].k \notin {"pong", "ping"}
Emit == (st = "open" /\ Len(h) = MaxMsgs) => PrintT(<<"CASE", ToJson([loaded |-> loaded, offers |-> offers, h |-> h])>>)
=============================================================================
