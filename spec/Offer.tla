------------------------------- MODULE Offer --------------------------------
(* Negotiation of permessage-deflate (RFC 7692): a client makes a list of     *)
(* offers, each a list of parameters; the server declines, or accepts one of  *)
(* them with an answer that is a legal response to it.                        *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Params,      \* parameters tried
          MaxParams, MaxOffers

VARIABLES offers,      \* list of offers
          answer,      \* <<>> or <<the parameters of the answer>>
          phase        \* "offering" "answered"
vars == <<offers, answer, phase>>

NoVal == 0
Bad == 99              \* any value that is not a number from 8 to 15 as it has to be written
Bits == 8..15
ValidParam(p) == CASE p.n \in {"snct", "cnct"} -> p.v = NoVal
                   [] p.n = "smwb" -> p.v \in Bits
                   [] p.n = "cmwb" -> p.v = NoVal \/ p.v \in Bits
                   [] OTHER -> FALSE
Valid(o) == /\ \A i \in DOMAIN o : ValidParam(o[i])
            /\ \A i, j \in DOMAIN o : i # j => o[i].n # o[j].n
Has(o, n) == \E i \in DOMAIN o : o[i].n = n
Val(o, n) == LET i == CHOOSE i \in DOMAIN o : o[i].n = n IN o[i].v
\* A window of 8 bits is none that every compressor is able to use
Demanding(o) == Has(o, "smwb") /\ Val(o, "smwb") = 8

\* r: snct, cnct: booleans; smwb, cmwb: bits or 0 when not mentioned
Legal(o, r) ==
  /\ Valid(o)
  /\ r.smwb \in Bits \cup {0} /\ r.cmwb \in Bits \cup {0}
  /\ Has(o, "snct") => r.snct
  /\ Has(o, "smwb") => r.smwb # 0 /\ r.smwb <= Val(o, "smwb")
  /\ r.cmwb # 0 => Has(o, "cmwb") /\ (Val(o, "cmwb") # NoVal => r.cmwb <= Val(o, "cmwb"))
Responses == [snct : BOOLEAN, cnct : BOOLEAN, smwb : Bits \cup {0}, cmwb : Bits \cup {0}]

\* What may be answered to a list of offers
Admissible(os, a) ==
  IF a = <<>> THEN \A i \in DOMAIN os : Valid(os[i]) => Demanding(os[i])
  ELSE Len(a) = 1 /\ \E i \in DOMAIN os : Legal(os[i], a[1])

Init == offers = <<>> /\ answer = <<>> /\ phase = "offering"
NewOffer == phase = "offering" /\ Len(offers) < MaxOffers /\ offers' = Append(offers, <<>>) /\ UNCHANGED <<answer, phase>>
AddParam == /\ phase = "offering" /\ offers # <<>> /\ Len(offers[Len(offers)]) < MaxParams
            /\ \E p \in Params : offers' = [offers EXCEPT ![Len(offers)] = Append(@, p)]
            /\ UNCHANGED <<answer, phase>>
Answer == /\ phase = "offering"
          /\ \E a \in {<<>>} \cup {<<r>> : r \in Responses} : Admissible(offers, a) /\ answer' = a
          /\ phase' = "answered" /\ UNCHANGED offers
Next == NewOffer \/ AddParam \/ Answer
Spec == Init /\ [][Next]_vars
MakeOffers == Init /\ [][NewOffer \/ AddParam]_vars

\* What was agreed on
ServerWindow(r) == IF r.smwb = 0 THEN 15 ELSE r.smwb
ClientWindow(r) == IF r.cmwb = 0 THEN 15 ELSE r.cmwb
\* nobody has to do with more than it said it can, nothing is agreed on that was not offered
Agreement ==
  phase = "answered" /\ answer # <<>> =>
    \E i \in DOMAIN offers : LET o == offers[i] r == answer[1] IN
      /\ Has(o, "smwb") => ServerWindow(r) <= Val(o, "smwb")
      /\ ~Has(o, "cmwb") => ClientWindow(r) = 15
      /\ Has(o, "snct") => r.snct
      /\ \A k \in DOMAIN o : o[k].n # "junk"
\* every valid offer can be accepted, no other
Possible == \A i \in DOMAIN offers : (\E r \in Responses : Legal(offers[i], r)) <=> Valid(offers[i])
=============================================================================
