------------------------------ MODULE ExtTrace ------------------------------
(* Recorded connections against Ext.                                          *)
EXTENDS Ext, Json, TLC
VARIABLES t, k
Traces == JsonDeserialize("traces.json")
Fr(f) == [f EXCEPT !.rsv = ToSet(@)]
Frs(fs) == [i \in DOMAIN fs |-> Fr(fs[i])]
TInit == /\ t \in DOMAIN Traces /\ k = 1
         /\ loaded = Traces[t].loaded /\ offers = Traces[t].offers
         /\ asked = 0 /\ acc = <<>> /\ st = "asking" /\ inp = <<>> /\ outp = <<>> /\ ready = <<>>
         /\ pend = {} /\ wire = <<>> /\ failed = FALSE /\ told = {}
         /\ inq = [i \in DOMAIN Traces[t].msgs |-> Frs(Traces[t].msgs[i])]
Step(e) ==
  CASE e.k = "open" -> Ask(e.n, e.p)
    [] e.k = "answer" -> Answer(e.l)
    [] e.k = "refuse" -> Refuse
    [] e.k = "in" -> InFrame(e.n, Fr(e.f[1]))
    [] e.k = "ins" -> InFrames(e.n, Frs(e.f))
    [] e.k = "msg" -> Deliver(e.op, e.b)
    [] e.k = "snd" -> Send(k, e.op, e.b, e.must)
    [] e.k = "first" -> OutFirst(Frs(e.cut), e.n, e.kind, Frs(e.f))
    [] e.k = "out" -> OutFrame(e.n, Fr(e.f[1]))
    [] e.k = "outs" -> OutFrames(e.n, Frs(e.f))
    [] e.k = "wire" -> Wire(Fr(e.f))
    [] e.k = "close" -> Tell(e.n)
    [] e.k = "over" -> Over(e.all, e.bye)
    [] e.k = "quiet" -> Quiet(e.bye)
    [] OTHER -> FALSE
TNext == \/ /\ k <= Len(Traces[t].ev) /\ Step(Traces[t].ev[k]) /\ k' = k + 1 /\ UNCHANGED t
         \/ (Skip \/ Stray) /\ UNCHANGED <<t, k>>
TSpec == TInit /\ [][TNext]_<<vars, t, k>>
Report == k > Len(Traces[t].ev) => PrintT(<<"ACCEPT", t>>)
Reach == PrintT(<<"REACH", t, k>>)
=============================================================================
