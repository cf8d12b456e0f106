-------------------------------- MODULE Utf8 --------------------------------
(* Which sequences of bytes are UTF-8 (RFC 3629), twice: as the concatenation *)
(* of encodings of Unicode scalar values, and as an automaton over bytes that *)
(* decides it incrementally, whatever the pieces the bytes come in.           *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Bytes,   \* bytes used (for model checking)
          MaxLen
VARIABLES s,       \* the bytes so far
          st       \* the state of the automaton
uvars == <<s, st>>

Cont(b) == b \in 128..191
Scalar(c) == c <= 55295 \/ (c >= 57344 /\ c <= 1114111)
\* the bytes w are the (shortest) encoding of a scalar value
Encodes(w) ==
  CASE Len(w) = 1 -> w[1] < 128
    [] Len(w) = 2 -> /\ w[1] \in 192..223 /\ Cont(w[2])
                     /\ (w[1] - 192) * 64 + (w[2] - 128) >= 128
    [] Len(w) = 3 -> /\ w[1] \in 224..239 /\ Cont(w[2]) /\ Cont(w[3])
                     /\ LET c == (w[1] - 224) * 4096 + (w[2] - 128) * 64 + (w[3] - 128) IN c >= 2048 /\ Scalar(c)
    [] Len(w) = 4 -> /\ w[1] \in 240..247 /\ Cont(w[2]) /\ Cont(w[3]) /\ Cont(w[4])
                     /\ LET c == (w[1] - 240) * 262144 + (w[2] - 128) * 4096 + (w[3] - 128) * 64 + (w[4] - 128) IN c >= 65536 /\ Scalar(c)
    [] OTHER -> FALSE
RECURSIVE Valid(_)
Valid(w) == w = <<>> \/ \E k \in 1..4 : k <= Len(w) /\ Encodes(SubSeq(w, 1, k)) /\ Valid(SubSeq(w, k + 1, Len(w)))

\* states: 0 complete, 1/2/3 continuation bytes missing, 4 after E0, 5 after ED, 6 after F0, 7 after F4, 8 wrong
States == 0..8
Step(q, b) ==
  CASE q = 0 -> CASE b < 128 -> 0
                  [] b \in 194..223 -> 1
                  [] b = 224 -> 4
                  [] b = 237 -> 5
                  [] b \in 225..236 \cup {238, 239} -> 2
                  [] b = 240 -> 6
                  [] b \in 241..243 -> 3
                  [] b = 244 -> 7
                  [] OTHER -> 8
    [] q \in 1..3 -> IF Cont(b) THEN q - 1 ELSE 8
    [] q = 4 -> IF b \in 160..191 THEN 1 ELSE 8
    [] q = 5 -> IF b \in 128..159 THEN 1 ELSE 8
    [] q = 6 -> IF b \in 144..191 THEN 2 ELSE 8
    [] q = 7 -> IF b \in 128..143 THEN 2 ELSE 8
    [] OTHER -> 8
RECURSIVE Run(_, _)
Run(q, w) == IF w = <<>> THEN q ELSE Run(Step(q, Head(w)), Tail(w))

UInit == s = <<>> /\ st = 0
UNext == Len(s) < MaxLen /\ \E b \in Bytes : s' = Append(s, b) /\ st' = Step(st, b)
USpec == UInit /\ [][UNext]_uvars

Agree == (st = 0) <=> Valid(s)
\* a word is given up exactly when nothing can complete it any more
Completions == {<<>>, <<128>>, <<191>>, <<160>>, <<128, 128>>, <<191, 128>>, <<160, 128>>, <<128, 128, 128>>, <<144, 128, 128>>}
Hopeless == st = 8 => \A t \in Completions : ~Valid(s \o t)
Hopeful == st # 8 => \E t \in Completions : Valid(s \o t)
\* the automaton decides a text the same way however it is cut in two
Cut == \A k \in 0..Len(s) : Run(Run(0, SubSeq(s, 1, k)), SubSeq(s, k + 1, Len(s))) = st
Row(q) == [b \in 1..256 |-> Step(q, b - 1)]
=============================================================================
