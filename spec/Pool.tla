-------------------------------- MODULE Pool --------------------------------
(* The pool of worker threads (src/pool.c).  Calls of add and destroy are a   *)
(* pair of events with one atomic effect in between; a worker takes the       *)
(* oldest accepted task (not visible), begins it and ends it (both visible).  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Callers,   \* who may call add and destroy
          Ids        \* tasks (for model checking)

VARIABLES size,      \* number of workers; 0: there is no pool (yet, or any more)
          room,      \* capacity of the queue
          mode,      \* "none", "open", "grace", "imm", "gone"
          q,         \* accepted tasks not yet taken, oldest first
          took,      \* taken, not yet begun
          busy,      \* begun, not yet ended
          done,      \* ended
          accepted,  \* accepted, in this order
          pend       \* pend[c]: the call c is in
pvars == <<size, room, mode, q, took, busy, done, accepted, pend>>

Ok == 0
Invalid == -1
Full == -3
Closing == -4
Idle == [k |-> "idle", id |-> 0, ok |-> TRUE, g |-> FALSE, eff |-> FALSE, r |-> 0]

PoolInit == /\ size = 0 /\ room = 0 /\ mode = "none" /\ q = <<>> /\ took = {} /\ busy = {} /\ done = {} /\ accepted = <<>>
            /\ pend = [c \in Callers |-> Idle]
New(n, r) == mode = "none" /\ mode' = "open" /\ size' = n /\ room' = r /\ UNCHANGED <<q, took, busy, done, accepted, pend>>
\* The pool could not be made; nothing of it is left.
None == mode = "open" /\ q = <<>> /\ accepted = <<>> /\ \A c \in Callers : pend[c].k = "idle"
        /\ mode' = "gone" /\ size' = 0 /\ UNCHANGED <<room, q, took, busy, done, accepted, pend>>

CallAdd(c, id, ok) == /\ pend[c].k = "idle" /\ mode \in {"open", "grace", "imm"} /\ \A n \in DOMAIN accepted : accepted[n] # id
                      /\ pend' = [pend EXCEPT ![c] = [Idle EXCEPT !.k = "add", !.id = id, !.ok = ok]]
                      /\ UNCHANGED <<size, room, mode, q, took, busy, done, accepted>>
\* accepted, or refused because of what was asked, a full queue, or the shutdown
DoAdd(c) ==
  /\ pend[c].k = "add" /\ ~pend[c].eff
  /\ LET ret(r) == pend' = [pend EXCEPT ![c].eff = TRUE, ![c].r = r]
         same == UNCHANGED <<q, accepted>>
     IN \/ ~pend[c].ok /\ ret(Invalid) /\ same
        \/ pend[c].ok /\ mode = "open" /\ Len(q) < room /\ ret(Ok) /\ q' = Append(q, pend[c].id) /\ accepted' = Append(accepted, pend[c].id)
        \/ pend[c].ok /\ Len(q) = room /\ ret(Full) /\ same
        \/ pend[c].ok /\ mode # "open" /\ ret(Closing) /\ same
  /\ UNCHANGED <<size, room, mode, took, busy, done>>
RetAdd(c, r) == /\ pend[c].k = "add" /\ pend[c].eff /\ pend[c].r = r
                /\ pend' = [pend EXCEPT ![c] = Idle]
                /\ UNCHANGED <<size, room, mode, q, took, busy, done, accepted>>

\* An immediate shutdown need not run what was accepted, but may.
Take == /\ q # <<>> /\ mode \in {"open", "grace", "imm"} /\ Cardinality(took) + Cardinality(busy) < size
        /\ took' = took \cup {Head(q)} /\ q' = Tail(q)
        /\ UNCHANGED <<size, room, mode, busy, done, accepted, pend>>
Begin(id) == /\ id \in took /\ took' = took \ {id} /\ busy' = busy \cup {id}
             /\ UNCHANGED <<size, room, mode, q, done, accepted, pend>>
End(id) == /\ id \in busy /\ busy' = busy \ {id} /\ done' = done \cup {id}
           /\ UNCHANGED <<size, room, mode, q, took, accepted, pend>>

CallDestroy(c, g) == /\ pend[c].k = "idle" /\ mode \in {"open", "grace", "imm"}
                     /\ pend' = [pend EXCEPT ![c] = [Idle EXCEPT !.k = "des", !.g = g]]
                     /\ UNCHANGED <<size, room, mode, q, took, busy, done, accepted>>
DoDestroy(c) == /\ pend[c].k = "des" /\ ~pend[c].eff
                /\ IF mode = "open" THEN mode' = IF pend[c].g THEN "grace" ELSE "imm"
                   ELSE UNCHANGED mode
                /\ pend' = [pend EXCEPT ![c].eff = TRUE, ![c].r = IF mode = "open" THEN Ok ELSE Closing]
                /\ UNCHANGED <<size, room, q, took, busy, done, accepted>>
\* The shutdown is over when no worker runs any more and, if it is a graceful
\* one, nothing accepted is left.
RetDestroy(c, r) == /\ pend[c].k = "des" /\ pend[c].eff /\ pend[c].r = r
                    /\ r = Ok => took = {} /\ busy = {} /\ (mode = "grace" => q = <<>>)
                    /\ mode' = IF r = Ok THEN "gone" ELSE mode
                    /\ pend' = [pend EXCEPT ![c] = Idle]
                    /\ UNCHANGED <<size, room, q, took, busy, done, accepted>>
Internal == Take \/ \E c \in Callers : DoAdd(c) \/ DoDestroy(c)

----------------------------------------------------------------------------
(* Properties *)
Rng(s) == {s[n] : n \in DOMAIN s}
Once == /\ \A a, b \in DOMAIN accepted : a # b => accepted[a] # accepted[b]
        /\ took \cap busy = {} /\ took \cap done = {} /\ busy \cap done = {} /\ Rng(q) \cap (took \cup busy \cup done) = {}
OnlyAccepted == took \cup busy \cup done \cup Rng(q) = Rng(accepted)
InOrder == q = SubSeq(accepted, Len(accepted) - Len(q) + 1, Len(accepted))
Bounded == Len(q) <= room /\ Cardinality(took) + Cardinality(busy) <= size
\* nothing runs once destroy returned
Over == mode = "gone" => took = {} /\ busy = {}
LosesNone == [][mode = "grace" /\ mode' = "gone" => done = Rng(accepted)]_pvars

(* Model: callers add every task once, one of them shuts down. *)
PNext == \/ \E n \in {1, 2}, r \in {1, 2} : New(n, r)
         \/ \E c \in Callers, id \in Ids : id \notin Rng(accepted) /\ (\A d \in Callers : pend[d].id # id) /\ CallAdd(c, id, TRUE)
         \/ \E c \in Callers, r \in {Ok, Invalid, Full, Closing} : RetAdd(c, r)
         \/ Internal
         \/ \E id \in Ids : Begin(id) \/ End(id)
         \/ \E c \in Callers, g \in BOOLEAN : CallDestroy(c, g)
         \/ \E c \in Callers, r \in {Ok, Closing} : (r = Ok => \A d \in Callers \ {c} : pend[d].k = "idle") /\ RetDestroy(c, r)
PoolSpec == PoolInit /\ [][PNext]_pvars
            /\ WF_pvars(Take) /\ \A id \in Ids : WF_pvars(Begin(id)) /\ WF_pvars(End(id))
            /\ \A c \in Callers : WF_pvars(DoAdd(c)) /\ WF_pvars(DoDestroy(c)) /\ WF_pvars(\E r \in {Ok, Closing} : RetDestroy(c, r))
\* every accepted task is run, unless an immediate shutdown prevents it
Runs == \A id \in Ids : (id \in Rng(accepted)) ~> (id \in done \/ mode = "imm" \/ mode = "gone")
=============================================================================
