------------------------------- MODULE Conn -------------------------------
(* One WebSocket connection after its opening handshake: how the server has   *)
(* to react to the sequence of frames a client sends (RFC 6455 sections 5 and *)
(* 7, and the limits of the configuration).  The reaction depends only on the *)
(* frames, not on how their bytes are split over segments or reads, nor on    *)
(* what happens on other connections.                                         *)
(*                                                                            *)
(* A frame is a record                                                        *)
(*   op    opcode 0..15          fin, mask  booleans       rsv   0..7         *)
(*   size  "n" normal, "lim" exactly the frame limit, "over" above it,        *)
(*         "c125"/"c126" payload of 125/126 bytes                             *)
(*   pay   sequence of payload tokens: "a" ASCII, "H" the first bytes of a    *)
(*         multi byte character, "L" the bytes completing it, "X" bytes that  *)
(*         are no part of any UTF-8 sequence                                  *)
(*   code  close frames: 0 = empty payload, 1 = a single byte, otherwise the  *)
(*         status code, pay being the reason                                  *)
(*   app   "" or what the application does upon the message: "close" (with code),  *)
(*         "ping", "reply" (two messages), "none" (nothing)                   *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Alphabet, MaxFragments, MaxSteps, MaxAfter

VARIABLES phase,      \* "open", "closing" (the application asked to close; the client did
                      \* not answer yet) or "closed" (a close frame was sent and received,
                      \* or sent because of a violation)
          frag,       \* indices (into hist) of the frames of an incomplete message
          out,        \* what the server has to send, in order
          delivered,  \* messages the application gets, in order
          late,       \* messages the application may (but need not) get after it closed
          hist,       \* the frames received
          after       \* how many of them after the close
vars == <<phase, frag, out, delivered, late, hist, after>>

Fr(op, fin, pay) == [op |-> op, fin |-> fin, mask |-> TRUE, rsv |-> 0, size |-> "n", pay |-> pay, code |-> 0, app |-> ""]
CloseFr(code, pay) == [Fr(8, TRUE, pay) EXCEPT !.code = code]
AppClose(k) == [Fr(1, TRUE, <<"a">>) EXCEPT !.app = "close", !.code = k]
AppFr(app) == [Fr(1, TRUE, <<"a">>) EXCEPT !.app = app]

Control(f) == f.op >= 8

\* --- UTF-8 over tokens
RECURSIVE ValidFrom(_, _)
ValidFrom(s, half) ==
  IF s = <<>> THEN ~half
  ELSE CASE Head(s) = "a" -> ~half /\ ValidFrom(Tail(s), FALSE)
         [] Head(s) = "H" -> ~half /\ ValidFrom(Tail(s), TRUE)
         [] Head(s) = "L" -> half /\ ValidFrom(Tail(s), FALSE)
         [] OTHER -> FALSE
ValidUtf8(s) == ValidFrom(s, FALSE)

RECURSIVE Concat(_, _)
Concat(h, idx) == IF idx = <<>> THEN <<>> ELSE h[Head(idx)].pay \o Concat(h, Tail(idx))

ValidCode(c) == \/ c \in 1000..1003 \/ c \in 1007..1014 \/ c \in 3000..4999

\* --- the rules a frame breaks, as the close codes they call for
Violations(h, fr, f) ==
  LET n == Len(h)                       \* f = h[n]
      whole == Append(fr, n)
      op == IF fr = <<>> THEN f.op ELSE h[fr[1]].op
  IN  (IF f.rsv # 0 THEN {1002} ELSE {})
      \cup (IF f.op \in 3..7 \cup 11..15 THEN {1002, 1003} ELSE {})
      \cup (IF ~f.mask THEN {1002} ELSE {})
      \cup (IF Control(f) /\ ~f.fin THEN {1002} ELSE {})
      \cup (IF f.size = "over" THEN {1009} ELSE {})
      \cup (IF Control(f) /\ f.size \in {"c126", "lim", "over"} THEN {1002} ELSE {})
      \cup (IF f.op = 8 /\ f.code = 1 THEN {1002} ELSE {})
      \cup (IF f.op = 8 /\ f.code > 1 /\ ~ValidCode(f.code) THEN {1002} ELSE {})
      \cup (IF f.op = 8 /\ f.code > 1 /\ ~ValidUtf8(f.pay) THEN {1007} ELSE {})
      \cup (IF f.op = 0 /\ fr = <<>> THEN {1002} ELSE {})
      \cup (IF f.op \in {1, 2} /\ fr # <<>> THEN {1002} ELSE {})
      \cup (IF f.op = 0 /\ Len(whole) > MaxFragments THEN {1009} ELSE {})
      \cup (IF f.op \in {0, 1} /\ f.fin /\ op = 1 /\ ~ValidUtf8(Concat(h, whole)) THEN {1007} ELSE {})

Init == phase = "open" /\ frag = <<>> /\ out = <<>> /\ delivered = <<>> /\ hist = <<>> /\ late = <<>> /\ after = 0

AppReaction(m, f) ==      \* what the application sends upon message m ending with f
  CASE f.app = "" -> << [k |-> "msg", op |-> m.op, parts |-> m.parts, codes |-> {}] >>
    [] f.app = "none" -> << >>
    [] f.app = "ping" -> << [k |-> "ping", op |-> 9, parts |-> m.parts, codes |-> {}] >>
    [] f.app = "reply" -> << [k |-> "gen", op |-> 2, parts |-> m.parts, codes |-> {0}], [k |-> "gen", op |-> 2, parts |-> m.parts, codes |-> {1}] >>
    [] OTHER -> << [k |-> "close", op |-> 8, parts |-> <<>>, codes |-> {f.code}] >>

\* queueing o: nothing follows a close frame
Queue(o) == IF phase = "open" THEN out \o o ELSE out

Recv(f) ==
  /\ Len(hist) < MaxSteps
  /\ phase # "open" => after < MaxAfter
  /\ after' = IF phase # "open" THEN after + 1 ELSE 0
  /\ hist' = Append(hist, f)
  /\ IF phase = "closed" THEN UNCHANGED <<phase, frag, out, delivered, late>>
     ELSE LET h == Append(hist, f)
              n == Len(h)
              bad == Violations(h, frag, f)
          IN IF bad # {}
             THEN /\ out' = Queue(<<[k |-> "close", op |-> 8, parts |-> <<>>, codes |-> bad]>>)
                  /\ phase' = "closed"
                  /\ frag' = <<>>
                  /\ UNCHANGED <<delivered, late>>
             ELSE CASE f.op = 8 ->
                       /\ out' = Queue(<<[k |-> "echo", op |-> 8, parts |-> <<n>>, codes |-> {}]>>)
                       /\ phase' = "closed" /\ frag' = <<>> /\ UNCHANGED <<delivered, late>>
                    [] f.op = 9 ->
                       /\ out' = Queue(<<[k |-> "pong", op |-> 10, parts |-> <<n>>, codes |-> {}]>>)
                       /\ UNCHANGED <<phase, frag, delivered, late>>
                    [] f.op = 10 -> UNCHANGED <<phase, frag, out, delivered, late>>
                    [] OTHER ->
                       LET whole == Append(frag, n)
                           m == [op |-> h[whole[1]].op, parts |-> whole]
                       IN IF ~f.fin THEN frag' = whole /\ UNCHANGED <<phase, out, delivered, late>>
                          ELSE LET r == AppReaction(m, f) IN
                               /\ frag' = <<>>
                               /\ IF phase = "open" THEN delivered' = Append(delivered, m) /\ UNCHANGED late
                                                    ELSE late' = Append(late, m) /\ UNCHANGED delivered
                               /\ out' = Queue(r)
                               /\ phase' = IF r # <<>> /\ r[Len(r)].k = "close" THEN "closing" ELSE phase

Next == \E f \in Alphabet : Recv(f)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* What the reaction guarantees *)
IsClose(o) == o.k \in {"close", "echo"}
CloseIsLast == \A i \in 1..Len(out) : IsClose(out[i]) => i = Len(out)
ClosedIffClose == (phase # "open") <=> (out # <<>> /\ IsClose(out[Len(out)]))
Parts == [i \in 1..Len(delivered) |-> delivered[i].parts]
WellFormed == \A i \in 1..Len(delivered) : LET p == delivered[i].parts IN
  /\ hist[p[1]].op \in {1, 2} /\ hist[p[1]].op = delivered[i].op
  /\ hist[p[Len(p)]].fin
  /\ \A j \in 1..Len(p)-1 : ~hist[p[j]].fin /\ hist[p[j+1]].op = 0 /\ p[j] < p[j+1]
  /\ \A j \in 1..Len(p)-1 : \A q \in p[j]+1..p[j+1]-1 : Control(hist[q])
  /\ delivered[i].op = 1 => ValidUtf8(Concat(hist, p))
  /\ Len(p) <= MaxFragments
InOrder == \A i, j \in 1..Len(delivered) : i < j => delivered[i].parts[Len(delivered[i].parts)] < delivered[j].parts[1]
PongsInOrder == LET ps == SelectSeq(out, LAMBDA o : o.k = "pong")
                    pings == {i \in 1..Len(hist) : hist[i].op = 9}
                IN /\ \A i, j \in 1..Len(ps) : i < j => ps[i].parts[1] < ps[j].parts[1]
                   /\ phase = "open" => {ps[i].parts[1] : i \in 1..Len(ps)} = pings
FragOk == frag # <<>> => phase # "closed" /\ hist[frag[1]].op \in {1, 2} /\ \A i \in 2..Len(frag) : hist[frag[i]].op = 0
Invariants == CloseIsLast /\ ClosedIffClose /\ WellFormed /\ InOrder /\ PongsInOrder /\ FragOk
\* a behaviour that goes no further
Done == Len(hist) = MaxSteps \/ (phase # "open" /\ after = MaxAfter)
Case == [h |-> hist, o |-> out, d |-> delivered, l |-> late, p |-> phase]
NothingAfterClose == [][phase # "open" => out' = out /\ delivered' = delivered]_vars
=============================================================================
