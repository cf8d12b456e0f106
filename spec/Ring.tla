-------------------------------- MODULE Ring --------------------------------
(* The queue of outgoing messages (src/ringbuf.c): several producers acquire  *)
(* ranges of a ring of Space slots, fill them and mark them produced; one     *)
(* consumer takes what is ready from the front and releases it.  Every call   *)
(* is a pair of events with one atomic effect in between.                     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CONSTANTS Space,    \* slots
          Records,  \* number of calls of producers that can be served at a time
          Threads,  \* producers
          Lens      \* lengths asked for (for model checking)

VARIABLES q,        \* acquired and not yet released ranges, oldest first:
                    \* [t, off, len, id, ready (may be consumed), sure (was marked for certain)]
          next,     \* where the next range begins
          pend,     \* pend[t]: what producer t is doing
          taken,    \* number of ranges handed to the consumer, not yet released
          cons,     \* what the consumer is doing
          hand,     \* where the last released range ended
          lastid    \* number of ranges acquired so far
rvars == <<q, next, pend, taken, cons, hand, lastid>>

Idle == [k |-> "idle", len |-> 0, done |-> FALSE, mayfail |-> FALSE, id |-> 0]
RingInit == /\ q = <<>> /\ next = 0 /\ taken = 0 /\ lastid = 0 /\ hand = 0
            /\ pend = [t \in Threads |-> Idle]
            /\ cons = [k |-> "idle", must |-> 0, n |-> 0]

\* The place of a new range: behind the last one, in one piece.  One slot always
\* stays free, and a range that ends with the ring makes the next one start at 0.
\* The room ends at the hand of the consumer, which is where the last released
\* range ended until the consumer, in a later call, follows the ranges to 0.
Room(len, nn, w) ==
  IF nn < w THEN nn + len < w
  ELSE \/ nn + len < Space
       \/ nn + len = Space /\ w > 0
       \/ nn + len > Space /\ len < w
Fits(len) == Room(len, next, hand)
Place(len) == IF next + len > Space THEN 0 ELSE next
After(len) == IF next + len > Space THEN len ELSE IF next + len = Space THEN 0 ELSE next + len

\* A failing acquire has to have met a full ring, or no free record, at some moment.
Note(p, nn, h) ==
  [t \in Threads |-> IF p[t].k = "acq" /\ ~p[t].done /\ ~p[t].mayfail
     THEN [p[t] EXCEPT !.mayfail = \/ ~Room(p[t].len, nn, h)
                                   \/ Cardinality({u \in Threads \ {t} : p[u].k # "idle"}) >= Records]
     ELSE p[t]]

CallAcquire(t, len) ==
  /\ pend[t].k = "idle"
  /\ pend' = Note([pend EXCEPT ![t] = [Idle EXCEPT !.k = "acq", !.len = len]], next, hand)
  /\ UNCHANGED <<q, next, taken, cons, lastid, hand>>
\* the effect of a successful acquire
TakeRange(t) ==
  /\ pend[t].k = "acq" /\ ~pend[t].done
  /\ Fits(pend[t].len)
  /\ LET len == pend[t].len
         q1 == Append(q, [t |-> t, off |-> Place(len), len |-> len, id |-> 0, ready |-> FALSE, sure |-> FALSE])
     IN /\ q' = q1 /\ next' = After(len)
        /\ pend' = Note([pend EXCEPT ![t].done = TRUE], After(len), hand)
  /\ UNCHANGED <<taken, cons, lastid, hand>>
Mine(t) == CHOOSE k \in DOMAIN q : q[k].t = t /\ ~q[k].ready
\* It returns: the ranges are numbered in the order of these events.
RetAcquire(t, off, id) ==
  /\ pend[t].k = "acq"
  /\ IF off >= 0
     THEN /\ pend[t].done /\ q[Mine(t)].off = off
          /\ id = lastid + 1 /\ lastid' = id
          /\ q' = [q EXCEPT ![Mine(t)].id = id]
          /\ pend' = [pend EXCEPT ![t] = [Idle EXCEPT !.k = "hold"]]
     ELSE /\ ~pend[t].done /\ pend[t].mayfail
          /\ pend' = [pend EXCEPT ![t] = Idle]
          /\ UNCHANGED <<q, lastid, hand>>
  /\ UNCHANGED <<next, taken, cons, hand>>
CallProduce(t) ==
  /\ pend[t].k = "hold"
  /\ pend' = [pend EXCEPT ![t].k = "prod", ![t].id = q[Mine(t)].id]
  /\ UNCHANGED <<q, next, taken, cons, lastid, hand>>
\* From the call on the range may be consumed, from its return on it has to be.
MarkReady(t) ==
  /\ pend[t].k = "prod" /\ ~pend[t].done
  /\ q' = [q EXCEPT ![Mine(t)].ready = TRUE]
  /\ pend' = [pend EXCEPT ![t].done = TRUE]
  /\ UNCHANGED <<next, taken, cons, lastid, hand>>
RetProduce(t) ==
  /\ pend[t].k = "prod" /\ pend[t].done
  /\ q' = [k \in DOMAIN q |-> IF q[k].id = pend[t].id THEN [q[k] EXCEPT !.sure = TRUE] ELSE q[k]]
  /\ pend' = [pend EXCEPT ![t] = Idle]
  /\ UNCHANGED <<next, taken, cons, lastid, hand>>

\* ranges a consume may return: k of them from the front, in one piece, all ready
Piece(k) == /\ k <= Len(q)
            /\ \A i \in 1..k : q[i].ready
            /\ \A i \in 2..k : q[i].off = q[i-1].off + q[i-1].len
RECURSIVE SumLen(_, _)
SumLen(s, k) == IF k = 0 THEN 0 ELSE s[k].len + SumLen(s, k - 1)
\* how many it has to return at least: those certainly marked before the call
Sure == CHOOSE k \in 0..Len(q) : /\ Piece(k) /\ \A i \in 1..k : q[i].sure
                                 /\ \A j \in k+1..Len(q) : ~(Piece(j) /\ \A i \in 1..j : q[i].sure)
CallConsume ==
  /\ cons.k = "idle" /\ taken = 0
  /\ cons' = [cons EXCEPT !.k = "cons", !.must = Sure]
  /\ UNCHANGED <<q, next, pend, taken, lastid, hand>>
Ids(k) == [i \in 1..k |-> q[i].id]
RECURSIVE Expand(_)
Expand(k) == IF k = 0 THEN <<>> ELSE Expand(k - 1) \o [i \in 1..q[k].len |-> q[k].id]
RetConsume(off, len, ids) ==
  /\ cons.k = "cons"
  /\ \E k \in 0..Len(q) :
       /\ Piece(k) /\ SumLen(q, k) = len /\ k >= cons.must
       /\ k > 0 => q[1].off = off /\ ids = Expand(k)
       /\ taken' = k
  /\ cons' = [cons EXCEPT !.k = "idle", !.must = 0]
  /\ UNCHANGED <<q, next, pend, lastid, hand>>
CallRelease(n) ==
  /\ cons.k = "idle" /\ taken > 0
  /\ \E k \in 1..taken : SumLen(q, k) = n
  /\ cons' = [cons EXCEPT !.k = "rel", !.n = CHOOSE k \in 1..taken : SumLen(q, k) = n]
  /\ UNCHANGED <<q, next, pend, taken, lastid, hand>>
Free ==
  /\ cons.k = "rel"
  /\ q' = SubSeq(q, cons.n + 1, Len(q))
  /\ taken' = taken - cons.n
  /\ hand' = LET e == q[cons.n].off + q[cons.n].len IN IF e = Space THEN 0 ELSE e
  /\ pend' = Note(pend, next, hand')
  /\ cons' = [cons EXCEPT !.k = "freed"]
  /\ UNCHANGED <<next, lastid>>
RetRelease ==
  /\ cons.k = "freed"
  /\ cons' = [cons EXCEPT !.k = "idle", !.n = 0]
  /\ UNCHANGED <<q, next, pend, taken, lastid, hand>>
\* The consumer does not use the rest of what it was given (it asks again).
Forget == /\ cons.k = "idle" /\ taken > 0 /\ taken' = 0
          /\ UNCHANGED <<q, next, pend, cons, lastid, hand>>
\* The ranges continue at 0, and so does the consumer.
Turn == /\ cons.k = "cons" /\ q # <<>> /\ q[1].off = 0 /\ hand # 0
        /\ hand' = 0 /\ pend' = Note(pend, next, 0)
        /\ UNCHANGED <<q, next, taken, cons, lastid>>
Internal == Free \/ Turn \/ \E t \in Threads : TakeRange(t) \/ MarkReady(t)

-----------------------------------------------------------------------------
\* For model checking: all histories of up to MaxIds ranges.
CONSTANT MaxIds
MCNext == \/ Internal \/ CallConsume \/ RetRelease \/ Forget
          \/ \E t \in Threads : \/ \E l \in Lens : lastid + Cardinality({u \in Threads : pend[u].k = "acq"}) < MaxIds /\ CallAcquire(t, l)
                                \/ CallProduce(t) \/ RetProduce(t)
                                \/ \E off \in -1..Space-1 : RetAcquire(t, off, IF off < 0 THEN 0 ELSE lastid + 1)
          \/ \E k \in 0..Len(q) : RetConsume(IF k = 0 THEN 0 ELSE q[1].off, SumLen(q, k), Expand(k))
          \/ \E k \in 1..taken : CallRelease(SumLen(q, k))
RingSpec == RingInit /\ [][MCNext]_rvars
Slots(r) == r.off .. (r.off + r.len - 1)
NoOverlap == \A i, j \in DOMAIN q : i # j => Slots(q[i]) \cap Slots(q[j]) = {}
Inside == \A i \in DOMAIN q : q[i].off + q[i].len <= Space
NeverFull == SumLen(q, Len(q)) < Space \/ q = <<>>
TakenReady == taken <= Len(q) /\ \A i \in 1..taken : q[i].ready
\* ranges of one producer stay in the order it acquired them
Order == \A i, j \in DOMAIN q : i < j /\ q[i].t = q[j].t /\ q[i].id # 0 /\ q[j].id # 0 => q[i].id < q[j].id
Distinct == \A i, j \in DOMAIN q : i # j /\ q[i].id # 0 => q[i].id # q[j].id
=============================================================================
