------------------------------- MODULE Limits -------------------------------
(* The configured limits.  Sizes are given as differences to the limit, so    *)
(* that 0 is a size exactly at the limit and 1 the first one beyond it.  A    *)
(* connection makes one request (target, header, body) and, when it was       *)
(* accepted, sends frames; of a frame either everything arrives or no more    *)
(* than its header ("head"), and still the excess is known then.              *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS ReqDeltas,    \* sizes of target, header and body tried
          FrameDeltas,  \* sizes of frames tried
          MaxFragments, \* limit of fragments of a message
          MaxFrames     \* bound: frames sent

VARIABLES phase,        \* "new" "open" "refused" "closed" "waiting" (for the rest of a frame)
          req,          \* the request made
          status,       \* admissible answers to it
          sent,         \* frames sent
          frags,        \* fragments of the message being received
          msgs,         \* complete messages: the indices of their frames
          cur,          \* indices of the frames of the incomplete message
          code          \* close code, 0: none
vars == <<phase, req, status, sent, frags, msgs, cur, code>>

None == [u |-> 0, h |-> 0, b |-> 0]
Init == /\ phase = "new" /\ req = None /\ status = {} /\ sent = <<>>
        /\ frags = 0 /\ msgs = <<>> /\ cur = <<>> /\ code = 0

Exceeded(r) == (IF r.u > 0 THEN {414} ELSE {}) \cup (IF r.h > 0 THEN {431} ELSE {}) \cup (IF r.b > 0 THEN {413} ELSE {})

Request(r) ==
  /\ phase = "new"
  /\ req' = r
  /\ status' = (IF Exceeded(r) = {} THEN {101} ELSE Exceeded(r))
  /\ phase' = (IF Exceeded(r) = {} THEN "open" ELSE "refused")
  /\ UNCHANGED <<sent, frags, msgs, cur, code>>

\* frames: k "data" (first frame of a message), "cont", "ping";
\* d: size compared with the frame limit; head: only its header arrives
Frame(k, fin, d, head) ==
  /\ phase = "open" /\ Len(sent) < MaxFrames
  /\ k = "data" => frags = 0
  /\ k = "cont" => frags > 0
  /\ k = "ping" => fin
  /\ LET f == IF k = "ping" THEN frags ELSE frags + 1
         big == d > 0 \/ (k # "ping" /\ f > MaxFragments)
         i == Len(sent) + 1
     IN /\ sent' = Append(sent, [k |-> k, fin |-> fin, d |-> d, head |-> head])
        /\ IF big THEN /\ phase' = "closed" /\ code' = 1009 /\ UNCHANGED <<frags, msgs, cur>>
           ELSE IF head THEN phase' = "waiting" /\ UNCHANGED <<frags, msgs, cur, code>>
           ELSE /\ phase' = "open" /\ code' = 0
                /\ frags' = (IF k = "ping" THEN f ELSE IF fin THEN 0 ELSE f)
                /\ msgs' = (IF k # "ping" /\ fin THEN Append(msgs, Append(cur, i)) ELSE msgs)
                /\ cur' = (IF k = "ping" THEN cur ELSE IF fin THEN <<>> ELSE Append(cur, i))
  /\ UNCHANGED <<req, status>>

Next == \/ \E u, h, b \in ReqDeltas : Request([u |-> u, h |-> h, b |-> b])
        \/ \E k \in {"data", "cont", "ping"}, fin \in BOOLEAN, d \in FrameDeltas, head \in BOOLEAN : Frame(k, fin, d, head)
Spec == Init /\ [][Next]_vars

\* Everything within the limits is accepted, and nothing else
Within == /\ \A i \in DOMAIN sent : sent[i].d <= 0
          /\ frags <= MaxFragments
          /\ \A i \in DOMAIN msgs : Len(msgs[i]) <= MaxFragments
Exact == /\ phase \in {"open", "waiting"} => Within /\ code = 0
         /\ phase = "closed" => code = 1009 /\ (sent[Len(sent)].d > 0 \/ frags = MaxFragments)
         /\ phase = "refused" => status \subseteq {413, 414, 431} /\ status # {}
         /\ phase # "new" => (101 \in status <=> req.u <= 0 /\ req.h <= 0 /\ req.b <= 0)
\* every message is made of the frames sent for it, in order, once
InOrder == \A i \in DOMAIN msgs : \A j \in 1..(Len(msgs[i]) - 1) : msgs[i][j] < msgs[i][j + 1]
Done == phase # "new" /\ (phase \in {"refused", "closed", "waiting"} \/ Len(sent) = MaxFrames)
Case == [r |-> req, s |-> status, f |-> sent, m |-> msgs, c |-> code, p |-> phase]
=============================================================================
