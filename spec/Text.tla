-------------------------------- MODULE Text --------------------------------
(* One text message, binary message or close reason whose bytes arrive in any  *)
(* number of fragments: what the server has to make of it (RFC 6455 5.6, 8.1). *)
EXTENDS Utf8
CONSTANTS MaxFrags,
          Wrong         \* whether bytes that make the text hopeless are used
VARIABLES kind,         \* "text", "binary" or "reason"
          frags,        \* the fragments so far: sequence of sequences of bytes
          done
tvars == <<s, st, kind, frags, done>>

TInit == UInit /\ kind \in {"text", "binary", "reason"} /\ frags = << <<>> >> /\ done = FALSE
Byte(b) ==
  /\ ~done /\ Len(s) < MaxLen /\ (Wrong \/ Step(st, b) # 8)
  /\ s' = Append(s, b) /\ st' = Step(st, b)
  /\ frags' = [frags EXCEPT ![Len(frags)] = Append(@, b)] /\ UNCHANGED <<kind, done>>
Split == /\ ~done /\ kind # "reason" /\ Len(frags) < MaxFrags
         /\ frags' = Append(frags, <<>>) /\ UNCHANGED <<s, st, kind, done>>
Finish == ~done /\ done' = TRUE /\ UNCHANGED <<s, st, kind, frags>>
TNext == (\E b \in Bytes : Byte(b)) \/ Split \/ Finish
TSpec == TInit /\ [][TNext]_tvars

Accepted == kind = "binary" \/ st = 0
\* the verdict depends on the joined bytes alone, and ASCII around them changes nothing
RECURSIVE Join(_)
Join(fs) == IF fs = <<>> THEN <<>> ELSE Head(fs) \o Join(Tail(fs))
Whole == Join(frags) = s
Padding == \A p \in {<<>>, <<97>>, <<97, 0>>}, q \in {<<97>>, <<127, 97>>} : Valid(p \o s \o q) = Valid(s)
\* text put into the middle leaves a valid text valid exactly between characters, an invalid one never
Tear == \A k \in 0..Len(s) : Valid(SubSeq(s, 1, k) \o <<97>> \o SubSeq(s, k + 1, Len(s))) = (Valid(s) /\ Run(0, SubSeq(s, 1, k)) = 0)
Verdict == done => (Accepted <=> (kind = "binary" \/ Valid(s)))
Case == [kind |-> kind, frags |-> frags, ok |-> Accepted]
=============================================================================
