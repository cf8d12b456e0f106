------------------------------- MODULE Frame -------------------------------
(* The frame format of RFC 6455 (5.2): what the bytes of a frame are, when a  *)
(* run of bytes holds a complete frame and what that is, how messages are cut *)
(* into frames, and the prescribed control frames.                            *)
(* A payload is known here by its length; its bytes follow the header.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Small,     \* frames used in the streams that are model checked
          MaxFrames
VARIABLES todo,      \* bytes of the current frame(s) not arrived yet
          sent,      \* frames sent so far
          buf,       \* bytes arrived and not consumed
          got        \* frames decoded so far
fvars == <<todo, sent, buf, got>>

\* ---- encoding
Big(n, k) == [i \in 1..k |-> IF k - i > 3 THEN 0 ELSE (n \div (IF k - i = 0 THEN 1 ELSE IF k - i = 1 THEN 256 ELSE IF k - i = 2 THEN 65536 ELSE 16777216)) % 256]
Form(n) == IF n <= 125 THEN 7 ELSE IF n <= 65535 THEN 16 ELSE 64
\* f: fin, rsv (0..7), op, form, len, key (empty: not masked)
Header(f) == <<(IF f.fin THEN 128 ELSE 0) + 16 * f.rsv + f.op,
               (IF f.key # <<>> THEN 128 ELSE 0) + (CASE f.form = 7 -> f.len [] f.form = 16 -> 126 [] OTHER -> 127)>>
             \o (CASE f.form = 7 -> <<>> [] f.form = 16 -> Big(f.len, 2) [] OTHER -> Big(f.len, 8))
             \o f.key
\* ---- decoding
LenBytes(b) == CASE b % 128 = 126 -> 2 [] b % 128 = 127 -> 8 [] OTHER -> 0
HeadLen(w) == 2 + LenBytes(w[2]) + (IF w[2] >= 128 THEN 4 ELSE 0)
HasHead(w) == Len(w) >= 2 /\ Len(w) >= HeadLen(w)
RECURSIVE Num(_)
Num(w) == IF w = <<>> THEN 0 ELSE Num(SubSeq(w, 1, Len(w) - 1)) * 256 + w[Len(w)]
\* a length of 2^31 or more: more than ever is there
Huge(w) == w[2] % 128 = 127 /\ (\E i \in 3..6 : w[i] # 0 \/ w[7] >= 128)
PayLen(w) == IF LenBytes(w[2]) = 0 THEN w[2] % 128 ELSE IF Huge(w) THEN 2147483647 ELSE Num(SubSeq(w, 3, 2 + LenBytes(w[2])))
Complete(w) == HasHead(w) /\ ~Huge(w) /\ Len(w) >= HeadLen(w) + PayLen(w)
Decode(w) == [fin |-> w[1] >= 128, rsv |-> (w[1] % 128) \div 16, op |-> w[1] % 16,
              form |-> CASE LenBytes(w[2]) = 0 -> 7 [] LenBytes(w[2]) = 2 -> 16 [] OTHER -> 64,
              len |-> PayLen(w), key |-> IF w[2] >= 128 THEN SubSeq(w, 3 + LenBytes(w[2]), HeadLen(w)) ELSE <<>>]
Consumed(w) == HeadLen(w) + PayLen(w)

\* ---- a stream of frames arriving in any pieces
Wire(f) == Header(f) \o [i \in 1..f.len |-> (i * 37 + f.op) % 256]
FInit == todo = <<>> /\ sent = <<>> /\ buf = <<>> /\ got = <<>>
Start == Len(sent) < MaxFrames /\ \E f \in Small : sent' = Append(sent, f) /\ todo' = todo \o Wire(f) /\ UNCHANGED <<buf, got>>
RECURSIVE Eat(_, _)
Eat(w, g) == IF Complete(w) THEN Eat(SubSeq(w, Consumed(w) + 1, Len(w)), Append(g, Decode(w))) ELSE <<w, g>>
Arrive == \E k \in 1..Len(todo) :
            LET e == Eat(buf \o SubSeq(todo, 1, k), got) IN
            buf' = e[1] /\ got' = e[2] /\ todo' = SubSeq(todo, k + 1, Len(todo)) /\ UNCHANGED sent
FNext == Start \/ Arrive
FSpec == FInit /\ [][FNext]_fvars
RECURSIVE Wires(_)
Wires(fs) == IF fs = <<>> THEN <<>> ELSE Wire(Head(fs)) \o Wires(Tail(fs))
\* what was decoded is exactly the frames whose last byte has arrived
Prefix == Len(got) <= Len(sent) /\ got = SubSeq(sent, 1, Len(got))
Rest == buf \o todo = Wires(SubSeq(sent, Len(got) + 1, Len(sent)))
Prompt == ~Complete(buf)
AllThere == todo = <<>> => got = sent

\* ---- messages cut into frames of at most lim bytes of payload
Parts(n, lim) == IF n = 0 THEN 1 ELSE (n + lim - 1) \div lim
Cut(op, n, lim) == [i \in 1..Parts(n, lim) |->
                      LET l == IF i < Parts(n, lim) THEN lim ELSE n - (Parts(n, lim) - 1) * lim IN
                      [fin |-> i = Parts(n, lim), rsv |-> 0, op |-> IF i = 1 THEN op ELSE 0, form |-> Form(l), len |-> l, key |-> <<>>]]
RECURSIVE Sum(_)
Sum(fs) == IF fs = <<>> THEN 0 ELSE Head(fs).len + Sum(Tail(fs))
CutOk(op, n, lim) == LET c == Cut(op, n, lim) IN
  /\ Sum(c) = n
  /\ \A i \in 1..Len(c) : c[i].len <= lim /\ (c[i].fin <=> i = Len(c)) /\ (c[i].op = op <=> i = 1 \/ op = 0)
  /\ (n > 0 => \A i \in 1..Len(c) : c[i].len > 0)
\* pings and pongs are never cut and never carry more than 125 bytes: 0 stands for refused
Control(op, n) == IF n > 125 THEN 0 ELSE 1

HeaderOk(f) == LET h == Header(f) IN HasHead(h) /\ Decode(h) = f /\ HeadLen(h) = Len(h) /\ \A k \in 0..(Len(h) - 1) : ~HasHead(SubSeq(h, 1, k))
=============================================================================
