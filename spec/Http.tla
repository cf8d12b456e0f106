------------------------------- MODULE Http -------------------------------
(* Reception of an HTTP request as lines arriving in any portions: nothing is *)
(* answered before the request is complete, a complete request is answered    *)
(* exactly once, and the answer is a function of the request alone.           *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS First, Lines, MaxLines,
          Answer(_)         \* the status a request is answered with
VARIABLES request,          \* lines the client has sent
          arrived,          \* number of them the server has read
          complete,         \* the client has sent the empty line
          answers           \* statuses answered
vars == <<request, arrived, complete, answers>>
\* A NUL byte cannot be part of a request: it may be refused at once
MayRefuse(r) == \E i \in 1..Len(r) : r[i] \in {"nul", "huge"}
Init == request = <<>> /\ arrived = 0 /\ complete = FALSE /\ answers = <<>>
SendLine(l) == /\ ~complete /\ Len(request) < MaxLines
               /\ IF request = <<>> THEN l \in First ELSE l \in Lines
               /\ request' = Append(request, l) /\ UNCHANGED <<arrived, complete, answers>>
SendEnd == /\ ~complete /\ request # <<>> /\ complete' = TRUE /\ UNCHANGED <<request, arrived, answers>>
\* the server reads some of what was sent, in any portion
Read(n) == /\ n \in arrived + 1 .. Len(request) /\ arrived' = n /\ answers = <<>>
           /\ UNCHANGED <<request, complete, answers>>
Reply == /\ complete /\ arrived = Len(request) /\ answers = <<>>
         /\ answers' = <<Answer(request)>> /\ UNCHANGED <<request, arrived, complete>>
Refuse == /\ answers = <<>> /\ MayRefuse(SubSeq(request, 1, arrived))
          /\ answers' = <<Answer(request)>> /\ UNCHANGED <<request, arrived, complete>>
Next == (\E l \in First \cup Lines : SendLine(l)) \/ SendEnd \/ (\E n \in 1..MaxLines : Read(n)) \/ Reply \/ Refuse
Spec == Init /\ [][Next]_vars /\ WF_vars(Reply) /\ WF_vars(\E n \in 1..MaxLines : Read(n))
OneAnswer == Len(answers) <= 1
NotBeforeComplete == answers # <<>> => complete \/ MayRefuse(request)
Functional == answers # <<>> /\ complete => answers[1] = Answer(request)
Invariants == OneAnswer /\ NotBeforeComplete /\ Functional
AllAnswered == complete ~> answers # <<>>
Case == [r |-> request, complete |-> complete, early |-> MayRefuse(request), n |-> Len(answers)]
\* the requests as such, whatever the portions
Done == arrived = 0 /\ answers = <<>> /\ request # <<>>
=============================================================================
