----------------------------- MODULE OfferTrace -----------------------------
(* Answers recorded from the real server against Offer.                       *)
EXTENDS Offer, Json, TLC
VARIABLE t
Traces == JsonDeserialize("traces.json")
TInit == t \in DOMAIN Traces /\ offers = Traces[t].o /\ answer = <<>> /\ phase = "offering"
TNext == phase = "offering" /\ answer' = Traces[t].a /\ phase' = "answered" /\ Admissible(offers, answer') /\ UNCHANGED <<offers, t>>
TSpec == TInit /\ [][TNext]_<<vars, t>>
Report == phase = "answered" => PrintT(<<"ACCEPT", t>>)
=============================================================================
