------------------------------ MODULE Deflate -------------------------------
(* Compressed messages.  Text is a sequence of units; a compressed message is *)
(* a sequence of tokens: 0 is a new unit, d > 0 repeats the unit d back in    *)
(* the text compressed so far.  Both directions have an encoder and a decoder *)
(* whose memories are the last Window units of that text.  Messages that are  *)
(* sent uncompressed leave the memories alone.                                *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Conns, Kinds,
          SWin, CWin,        \* windows of server and client agreed on, in units
          SNct, CNct,        \* whether server, client start anew with every message
          MaxMsgs

VARIABLES h,        \* history: connection and kind of the messages sent
          ctx,      \* text the client's encoder may refer to
          mem,      \* the server's decoder
          sctx, cmem,   \* and the other direction
          open,     \* connections that are open
          want, got,    \* text the client meant, the application got
          said, heard   \* text the application sent, the client got
vars == <<h, ctx, mem, sctx, cmem, open, want, got, said, heard>>

Min(a, b) == IF a < b THEN a ELSE b
Last(s, n) == SubSeq(s, Len(s) - Min(n, Len(s)) + 1, Len(s))
None == <<0, 0>>

\* what tokens mean to someone who remembers m; None: it cannot be known
RECURSIVE Expand(_, _, _)
Expand(m, toks, id) ==
  IF toks = <<>> THEN m
  ELSE LET d == Head(toks)
           u == IF d = 0 THEN <<id, Len(m)>> ELSE IF d <= Len(m) THEN m[Len(m) - d + 1] ELSE None
       IN Expand(Append(m, u), Tail(toks), id)
Text(m, toks, id) == SubSeq(Expand(m, toks, id), Len(m) + 1, Len(m) + Len(toks))
\* a decoder has only the window at any point: what reaches farther is unknown
RECURSIVE Window(_, _, _, _)
Window(m, toks, w, id) ==
  IF toks = <<>> THEN <<>>
  ELSE LET v == Last(m, w)
           d == Head(toks)
           u == IF d = 0 THEN <<id, Len(m)>> ELSE IF d <= Len(v) THEN v[Len(v) - d + 1] ELSE None
       IN <<u>> \o Window(Append(m, u), Tail(toks), w, id)

Far(c) == Min(Len(ctx[c]) + 1, CWin)      \* behind one new unit
Tokens(c, k) == CASE k = "empty" -> <<>>
                  [] k \in {"lits", "plain"} -> <<0, 0>>
                  [] k = "near" -> <<0, 1, 1>>
                  [] k = "far" -> <<0, Far(c), Far(c)>>
                  [] k = "over" -> <<0, Len(ctx[c]) + 2>>
                  [] OTHER -> <<>>

Init == /\ h = <<>> /\ open = Conns
        /\ ctx = [c \in Conns |-> <<>>] /\ mem = ctx /\ sctx = ctx /\ cmem = ctx
        /\ want = [c \in Conns |-> <<>>] /\ got = want /\ said = want /\ heard = want

\* the answer of an echoing application; any references the window allows
Answers(c) == {<<0, d>> : d \in 0..Min(Len(sctx[c]) + 1, SWin)} \cup {<<0>>}
Echo(c, id, toks) ==
  LET text == Text(sctx[c], toks, id)
      seen == Window(cmem[c], toks, SWin, id)
  IN /\ said' = [said EXCEPT ![c] = Append(@, text)]
     /\ heard' = [heard EXCEPT ![c] = Append(@, seen)]
     /\ sctx' = [sctx EXCEPT ![c] = IF SNct THEN <<>> ELSE Last(@ \o text, SWin)]
     /\ cmem' = [cmem EXCEPT ![c] = IF SNct THEN <<>> ELSE Last(@ \o seen, SWin)]

Send(c, k) ==
  /\ c \in open /\ Len(h) < MaxMsgs
  /\ h' = Append(h, [c |-> c, k |-> k])
  /\ IF k \in {"over", "bad", "cut"}
     THEN /\ open' = open \ {c}
          /\ UNCHANGED <<ctx, mem, sctx, cmem, want, got, said, heard>>
     ELSE LET id == Len(h) + 1
              toks == Tokens(c, k)
              text == IF k = "plain" THEN Text(<<>>, toks, id) ELSE Text(ctx[c], toks, id)
              seen == IF k = "plain" THEN text ELSE Window(mem[c], toks, CWin, id)
          IN /\ want' = [want EXCEPT ![c] = Append(@, text)]
             /\ got' = [got EXCEPT ![c] = Append(@, seen)]
             /\ ctx' = [ctx EXCEPT ![c] = IF k = "plain" THEN @ ELSE IF CNct THEN <<>> ELSE Last(@ \o text, CWin)]
             /\ mem' = [mem EXCEPT ![c] = IF k = "plain" THEN @ ELSE IF CNct THEN <<>> ELSE Last(@ \o seen, CWin)]
             /\ \E r \in Answers(c) : Echo(c, id, r)
             /\ UNCHANGED open
Next == \E c \in Conns, k \in Kinds : Send(c, k)
Spec == Init /\ [][Next]_vars

Intact == want = got /\ said = heard
InWindow == \A c \in Conns : Len(mem[c]) <= CWin /\ Len(cmem[c]) <= SWin
NoneKnown == \A c \in Conns : \A m \in {want[c][i] : i \in DOMAIN want[c]} : \A j \in DOMAIN m : m[j] # None
Done == Len(h) = MaxMsgs \/ open = {}
\* for the enumeration of histories only
HInit == Init
HNext == \E c \in Conns, k \in Kinds :
           /\ c \in open /\ Len(h) < MaxMsgs /\ h' = Append(h, [c |-> c, k |-> k])
           /\ open' = (IF k \in {"over", "bad", "cut"} THEN open \ {c} ELSE open)
           /\ UNCHANGED <<ctx, mem, sctx, cmem, want, got, said, heard>>
HSpec == HInit /\ [][HNext]_vars
=============================================================================
