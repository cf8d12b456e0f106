-------------------------------- MODULE Ext ---------------------------------
(* One connection and the extensions of the server.  A frame is a record      *)
(*   [fin, op, rsv (set of reserved bits), x (letters of extension data in    *)
(*    front that were recognised), b (text)]                                  *)
(* text is a sequence of one-letter strings.  An extension e is a record      *)
(*   [n (name), t (letter), m (mode), b (bit, 0: none), d, a]; d: "y" takes   *)
(*   every offer, "n" none, "p" those whose parameters say so.                *)
(* RFC 6455, 9.1: operations on the data are made in the order of the answer; *)
(* what arrives is undone in the opposite order.                              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

VARIABLES loaded,    \* extensions of the server
          offers,    \* what the client offers: records [n, p (text of parameters), ok]
          asked,     \* number of offers looked at
          acc,       \* extensions accepted, in order
          st,        \* "asking" "open" "refused" "over"
          inq,       \* complete messages the client has sent, each a sequence of frames
          inp, outp, \* message on its way through the extensions (or <<>>)
          ready,     \* messages due to the application
          pend,      \* messages the application has sent
          wire,      \* frames due on the wire
          failed,    \* a message had bits that nobody takes
          told       \* extensions that know about the end
vars == <<loaded, offers, asked, acc, st, inq, inp, outp, ready, pend, wire, failed, told>>

Init0 == asked = 0 /\ acc = <<>> /\ st = "asking" /\ inq = <<>> /\ inp = <<>> /\ outp = <<>> /\ ready = <<>>
         /\ pend = {} /\ wire = <<>> /\ failed = FALSE /\ told = {}

Find(n) == SelectSeq(loaded, LAMBDA e : e.n = n)
Takes(e, o) == e.d = "y" \/ (e.d = "p" /\ o.ok)
\* an offer that is nobody's business
Moot(o) == Find(o.n) = <<>> \/ \E i \in DOMAIN acc : acc[i].n = o.n
Skip == st = "asking" /\ asked < Len(offers) /\ Moot(offers[asked + 1])
        /\ asked' = asked + 1
        /\ UNCHANGED <<loaded, offers, acc, st, inq, inp, outp, ready, pend, wire, failed, told>>
Ask(n, p) == /\ st = "asking" /\ asked < Len(offers) /\ ~Moot(offers[asked + 1])
             /\ offers[asked + 1].n = n /\ offers[asked + 1].p = p
             /\ asked' = asked + 1
             /\ acc' = IF Takes(Find(n)[1], offers[asked + 1]) THEN Append(acc, Find(n)[1]) ELSE acc
             /\ UNCHANGED <<loaded, offers, st, inq, inp, outp, ready, pend, wire, failed, told>>
\* the answer: names and parameters of those accepted
Answer(l) == /\ st = "asking" /\ asked = Len(offers)
             /\ l = [i \in DOMAIN acc |-> [n |-> acc[i].n, a |-> acc[i].a]]
             /\ st' = "open"
             /\ UNCHANGED <<loaded, offers, asked, acc, inq, inp, outp, ready, pend, wire, failed, told>>
Refuse == /\ st = "asking" /\ st' = "refused"
          /\ UNCHANGED <<loaded, offers, asked, acc, inq, inp, outp, ready, pend, wire, failed, told>>

\* ------------------------------------------------ what extensions do to frames
Marked(e, f) == (e.b = 0 \/ e.b \in f.rsv) /\ f.b # <<>>
Take(e, f) == IF Marked(e, f) /\ Last(f.b) = e.t THEN [f EXCEPT !.b = Front(@), !.rsv = @ \ {e.b}] ELSE f
TakeHead(e, f) == IF Marked(e, f) /\ f.b[1] = e.t THEN [f EXCEPT !.b = Tail(@), !.x = Append(@, e.t), !.rsv = @ \ {e.b}] ELSE f
Put(e, f) == [f EXCEPT !.b = Append(@, e.t), !.rsv = @ \cup ({e.b} \ {0})]
PutHead(e, f) == [f EXCEPT !.x = <<e.t>> \o @, !.rsv = @ \cup ({e.b} \ {0})]
InF(e, f) == CASE e.m = "frame" -> Take(e, f) [] e.m = "head" -> TakeHead(e, f) [] OTHER -> f
InM(e, fs) == IF e.m = "msg" THEN [fs EXCEPT ![1] = Take(e, @)] ELSE fs
OutF(e, f) == CASE e.m = "frame" -> Put(e, f) [] e.m = "head" -> PutHead(e, f) [] OTHER -> f
OutM(e, fs) == IF e.m = "msg" THEN [fs EXCEPT ![1] = Put(e, @)] ELSE fs

\* ------------------------------------------------ a message passing extensions
\* fs: frames as they are now, left: extensions still to come, done: frames the first of them
\* has seen, msg: whether it has seen the message
Pass(fs, order) == [fs |-> fs, left |-> order, done |-> 0, msg |-> FALSE]
Forward(p) == IF p.left # <<>> /\ p.done = Len(p.fs) /\ p.msg THEN [p EXCEPT !.left = Tail(@), !.done = 0, !.msg = FALSE] ELSE p
Frame(p, n, f, F(_, _)) == IF p.left # <<>> /\ p.left[1].n = n /\ p.done < Len(p.fs) /\ f = p.fs[p.done + 1]
                           THEN Forward([p EXCEPT !.fs[p.done + 1] = F(p.left[1], @), !.done = @ + 1]) ELSE <<>>
Whole(p, n, fs, F(_, _)) == IF p.left # <<>> /\ p.left[1].n = n /\ ~p.msg /\ fs = p.fs
                            THEN Forward([p EXCEPT !.fs = F(p.left[1], @), !.msg = TRUE]) ELSE <<>>
Texts(fs) == FlattenSeq([i \in DOMAIN fs |-> fs[i].b])

\* in: starts with the oldest message of the client
Enter == IF inp # <<>> THEN inp ELSE IF inq # <<>> THEN Pass(Head(inq), Reverse(acc)) ELSE Pass(<<>>, <<>>)
Arrive(p) == \* the state behind a step of the message that is on its way in
  /\ p # <<>>
  /\ inq' = IF inp = <<>> THEN Tail(inq) ELSE inq
  /\ IF p.left # <<>> THEN inp' = p /\ UNCHANGED <<ready, failed>>
     ELSE /\ inp' = <<>>
          /\ IF \E i \in DOMAIN p.fs : p.fs[i].rsv # {}
             THEN failed' = TRUE /\ UNCHANGED ready
             ELSE ready' = Append(ready, [op |-> p.fs[1].op, b |-> Texts(p.fs)]) /\ UNCHANGED failed
  /\ UNCHANGED <<loaded, offers, asked, acc, st, outp, pend, wire, told>>
CanIn == st = "open" /\ acc # <<>> /\ ~failed /\ told = {}
InFrame(n, f) == CanIn /\ Arrive(Frame(Enter, n, f, InF))
InFrames(n, fs) == CanIn /\ Arrive(Whole(Enter, n, fs, InM))
\* a control frame with bits that nobody takes
Stray == /\ CanIn /\ inp = <<>> /\ inq # <<>> /\ Head(inq)[1].op >= 8 /\ Head(inq)[1].rsv # {}
         /\ inq' = Tail(inq) /\ failed' = TRUE
         /\ UNCHANGED <<loaded, offers, asked, acc, st, inp, outp, ready, pend, wire, told>>
Deliver(op, b) == /\ ready # <<>> /\ Head(ready) = [op |-> op, b |-> b]
                  /\ ready' = Tail(ready)
                  /\ UNCHANGED <<loaded, offers, asked, acc, st, inq, inp, outp, pend, wire, failed, told>>

\* out: any message sent and not yet on its way, cut into frames in any way
\* must: the message is certainly meant for this connection (descriptors are used again)
Send(id, op, b, must) ==
                   /\ st # "over"
                   /\ pend' = pend \cup {[id |-> id, op |-> op, b |-> b, must |-> must]}
                   /\ UNCHANGED <<loaded, offers, asked, acc, st, inq, inp, outp, ready, wire, failed, told>>
Cut(m, fs) == /\ fs # <<>> /\ Texts(fs) = m.b /\ fs[1].op = m.op
              /\ \A i \in DOMAIN fs : fs[i].rsv = {} /\ fs[i].x = <<>> /\ (fs[i].fin <=> i = Len(fs)) /\ (i > 1 => fs[i].op = 0)
Leave(p) == /\ p # <<>>
            /\ IF p.left # <<>> THEN outp' = p /\ UNCHANGED wire ELSE outp' = <<>> /\ wire' = wire \o p.fs
            /\ UNCHANGED <<loaded, offers, asked, acc, st, inq, inp, ready, failed, told>>
CanOut == st = "open" /\ acc # <<>> /\ told = {}
\* fs: the frames the message is cut into (known from what is to come when traces are validated)
OutFirst(fs, n, k, f) == /\ CanOut /\ outp = <<>>
                         /\ \E m \in pend : Cut(m, fs) /\ pend' = pend \ {m}
                         /\ LET p == Pass(fs, acc) IN Leave(IF k = "frame" THEN Frame(p, n, f[1], OutF) ELSE Whole(p, n, f, OutM))
OutFrame(n, f) == CanOut /\ outp # <<>> /\ Leave(Frame(outp, n, f, OutF)) /\ UNCHANGED pend
OutFrames(n, fs) == CanOut /\ outp # <<>> /\ Leave(Whole(outp, n, fs, OutM)) /\ UNCHANGED pend
\* a frame appears on the wire (its extension data is the beginning of its payload there)
Flat(f) == [fin |-> f.fin, op |-> f.op, rsv |-> f.rsv, b |-> f.x \o f.b]
Wire(f) == /\ wire # <<>> /\ f = Flat(Head(wire)) /\ wire' = Tail(wire)
           /\ UNCHANGED <<loaded, offers, asked, acc, st, inq, inp, outp, ready, pend, failed, told>>

Tell(n) == /\ st \in {"asking", "open", "refused"} /\ \E i \in DOMAIN acc : acc[i].n = n
           /\ n \notin told /\ told' = told \cup {n}
           /\ inp = <<>> /\ outp = <<>>
           /\ UNCHANGED <<loaded, offers, asked, acc, st, inq, inp, outp, ready, pend, wire, failed>>
\* the descriptor is closed; all: the client has been answered its close frame; bye: code of the
\* close frame the server sent (0: none)
Over(all, bye) ==
        /\ st # "over" /\ st' = "over"
        /\ told = {acc[i].n : i \in DOMAIN acc}
        /\ (all => (inp = <<>> /\ ready = <<>> /\ (failed \/ inq = <<>>)))
        /\ (bye = 1002 => failed)
        /\ UNCHANGED <<loaded, offers, asked, acc, inq, inp, outp, ready, pend, wire, failed, told>>
\* nothing moves any more
Quiet(bye) ==
         /\ (st = "open" /\ told = {} /\ acc # <<>>) =>
              /\ inp = <<>> /\ outp = <<>> /\ ready = <<>>
              /\ (failed \/ (inq = <<>> /\ (\A m \in pend : ~m.must) /\ wire = <<>>))
              /\ (failed <=> bye = 1002)
         /\ UNCHANGED vars
=============================================================================
