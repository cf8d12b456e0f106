---------------------------- MODULE ConfigTrace -----------------------------
(* Configurations loaded by the real program against Config.                  *)
EXTENDS Config, Json, TLC
VARIABLE t
Traces == JsonDeserialize("traces.json")
TInit == t \in DOMAIN Traces /\ Init
TNext == phase = "reading" /\ phase' = "judged" /\ (Admissible(Traces[t].d, Traces[t].out) \/ (Traces[t].huge /\ Traces[t].out.refused)) /\    \* numbers no integer can hold may make a file unusable
         UNCHANGED <<file, cfg, t>>
TSpec == TInit /\ [][TNext]_<<vars, t>>
Report == phase = "judged" => PrintT(<<"ACCEPT", t>>)
=============================================================================
