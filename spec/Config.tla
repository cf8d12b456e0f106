------------------------------- MODULE Config -------------------------------
(* What a configuration file means.  A file is a JSON value; objects are      *)
(* sequences of members, so that their order is visible.  Integers are        *)
(* <<negative, hi, lo>> with the absolute value hi * 2^31 + lo.               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS Leaves,      \* pairs of a path and a value that files are made of
          MaxLeaves
VARIABLES file,        \* the leaves written so far, in order
          cfg,         \* configuration read from them one by one
          phase
vars == <<file, cfg, phase>>

Num(n) == [t |-> "int", i |-> <<0, 0, n>>]
Neg(n) == [t |-> "int", i |-> <<1, 0, n>>]
Str(s) == [t |-> "str", s |-> s]
Null == [t |-> "null"]
Bool(b) == [t |-> "bool", b |-> b]
Absent == [t |-> "absent"]
Obj(ms) == [t |-> "obj", o |-> ms]
Arr(vs) == [t |-> "arr", a |-> vs]

\* ------------------------------------------------ documented settings
S(p) == <<"setup">> \o p
Ports == {S(<<"port", "http">>), S(<<"port", "https">>)}
Sizes == {S(<<"size", n>>) : n \in {"payload", "header", "uri", "buffer", "thread", "ringbuffer", "frame", "fragmented"}}
         \cup {S(<<"pool", "workers">>), S(<<"pool", "retries">>), S(<<"timeouts", "pings">>), S(<<"log_level">>)}
Waits == {S(<<"timeouts", n>>) : n \in {"poll", "read", "write", "client"}}
Ints == Ports \cup Sizes \cup Waits
Strs == {S(<<"ssl", n>>) : n \in {"key", "cert", "ca_file", "ca_path", "dhparam", "cipher_list", "cipher_suites"}} \cup {S(<<"favicon">>)}
Bools == {S(<<"ssl", n>>) : n \in {"compression", "peer_cert"}}
Lists == {<<"hosts">>, <<"origins">>, <<"paths">>, <<"queries">>}
Plugins == {S(<<"subprotocols">>), S(<<"extensions">>)}
Settings == Ints \cup Strs \cup Bools \cup Lists \cup Plugins

Echo == <<[f |-> Str("subprotocols/echo/echo.so"), c |-> Null], [f |-> Str("subprotocols/broadcast/broadcast.so"), c |-> Null]>>
Default(p) ==
  CASE p = S(<<"port", "http">>) -> Num(80)      [] p = S(<<"port", "https">>) -> Num(443)
    [] p = S(<<"size", "payload">>) -> Num(16777215) [] p = S(<<"size", "header">>) -> Num(8192)
    [] p = S(<<"size", "uri">>) -> Num(8192)     [] p = S(<<"size", "buffer">>) -> Num(32768)
    [] p = S(<<"size", "thread">>) -> Num(2097152) [] p = S(<<"size", "ringbuffer">>) -> Num(128)
    [] p = S(<<"size", "frame">>) -> Num(1048576) [] p = S(<<"size", "fragmented">>) -> Num(1048576)
    [] p = S(<<"pool", "workers">>) -> Num(4)    [] p = S(<<"pool", "retries">>) -> Num(5)
    [] p = S(<<"timeouts", "pings">>) -> Num(1)  [] p = S(<<"log_level">>) -> Num(3)
    [] p = S(<<"timeouts", "poll">>) -> Neg(1)   [] p = S(<<"timeouts", "client">>) -> Num(60000)
    [] p \in Waits -> Num(1000)
    [] p \in Strs -> Null
    [] p \in Bools -> Bool(FALSE)
    [] p \in Lists -> <<>>
    [] p = S(<<"subprotocols">>) -> Echo
    [] OTHER -> <<>>

\* ------------------------------------------------ meaning of a single value
IsInt(v) == v.t = "int"
InRange(p, v) == \/ p \in Ports /\ v.i[1] = 0 /\ v.i[2] = 0 /\ v.i[3] <= 65535
                 \/ p \in Sizes /\ v.i[1] = 0 /\ v.i[2] <= 1
                 \/ p \in Waits /\ (v.i[2] = 0 \/ v.i = <<1, 1, 0>>)
                 \/ p = S(<<"timeouts", "client">>) /\ v.i[2] < 1000000
Texts(v) == v.t = "arr" /\ \A i \in DOMAIN v.a : v.a[i].t = "str"
Member(v, k) == LET ms == SelectSeq(v.o, LAMBDA m : m.k = k) IN IF ms = <<>> THEN Absent ELSE ms[1].v
Entry(v) == v.t = "obj" /\ Member(v, "file").t = "str"
Entries(v) == v.t = "arr" /\ \A i \in DOMAIN v.a : Entry(v.a[i])
Config1(v) == LET c == Member(v, "config") IN IF c.t = "str" THEN c ELSE Null

\* the value cannot be what was meant, the file is of no use
Fatal(p, v) == \/ p \in Lists /\ v.t = "arr" /\ ~Texts(v)
               \/ p \in Plugins /\ v.t = "arr" /\ ~Entries(v)
\* effective value, given that of an ignored one
Effect(p, v, old) ==
  IF p \in Ints THEN (IF IsInt(v) /\ InRange(p, v) THEN (IF p \in Waits /\ v.i[1] = 1 THEN Neg(1) ELSE v) ELSE old)
  ELSE IF p \in Strs THEN (IF v.t = "str" THEN v ELSE old)
  ELSE IF p \in Bools THEN (IF v.t = "bool" THEN v ELSE old)
  ELSE IF p \in Lists THEN (IF Texts(v) THEN [i \in DOMAIN v.a |-> v.a[i].s] ELSE old)
  ELSE IF Entries(v) /\ v.a # <<>> THEN [i \in DOMAIN v.a |-> [f |-> Member(v.a[i], "file"), c |-> Config1(v.a[i])]] ELSE old

\* ------------------------------------------------ meaning of a file
RECURSIVE At(_, _)
At(v, p) == IF p = <<>> THEN v ELSE IF v.t # "obj" THEN Absent ELSE At(Member(v, Head(p)), Tail(p))
Want(d, p) == LET v == At(d, p) IN IF v = Absent THEN Default(p) ELSE Effect(p, v, Default(p))
MustRefuse(d) == \/ d.t # "obj"
                 \/ \E p \in Lists \cup Plugins : At(d, p) # Absent /\ Fatal(p, At(d, p))
                 \/ \A p \in Ports : Want(d, p) = Num(0)
\* a number that the setting cannot have may be refused as well as ignored
MayRefuse(d) == \E p \in Ints : LET v == At(d, p) IN v.t = "int" /\ (~InRange(p, v) \/ (p \in Sizes /\ v = Num(0)))
\* a size of nothing may be ignored
\* hosts are accepted with the ports as well
Hosts(d) == LET h == Want(d, <<"hosts">>)
                n == {Want(d, p).i[3] : p \in Ports} \ {0}
                k == Cardinality({p \in Ports : Want(d, p) # Num(0)})
            IN [all |-> {h[i] : i \in DOMAIN h} \cup {h[i] \o ":" \o ToString(m) : i \in DOMAIN h, m \in n}, len |-> Len(h) * (k + 1)]
Right(d, p, x) == \/ p # <<"hosts">> /\ x = Want(d, p)
                  \/ p = <<"hosts">> /\ {x[i] : i \in DOMAIN x} = Hosts(d).all /\ Len(x) = Hosts(d).len
                  \/ p \in Sizes /\ At(d, p) = Num(0) /\ x = Default(p)
                  \/ p \in Waits /\ At(d, p).t = "int" /\ At(d, p).i[1] = 1 /\ x = Neg(1)

\* what a real loader gave: refused, or a function from settings to values
Admissible(d, out) ==
  IF out.refused THEN MustRefuse(d) \/ MayRefuse(d)
  ELSE /\ ~MustRefuse(d)
       /\ \A i \in DOMAIN out.set : Right(d, out.set[i].p, out.set[i].v)
       /\ {out.set[i].p : i \in DOMAIN out.set} = Settings

\* ------------------------------------------------ files made of leaves
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
RECURSIVE Put(_, _, _)
Put(ms, p, v) ==
  IF Len(p) = 1 THEN Append(ms, [k |-> p[1], v |-> v])
  ELSE LET at == {i \in DOMAIN ms : ms[i].k = p[1]}
       IN IF at = {} THEN Append(ms, [k |-> p[1], v |-> Obj(Put(<<>>, Tail(p), v))])
          ELSE LET i == CHOOSE i \in at : TRUE IN [ms EXCEPT ![i].v.o = Put(@, Tail(p), v)]
RECURSIVE Build(_, _)
Build(ms, ls) == IF ls = <<>> THEN ms ELSE Build(Put(ms, Head(ls).p, Head(ls).v), Tail(ls))
Doc(ls) == Obj(Build(<<>>, ls))

Init == file = <<>> /\ cfg = [p \in Settings |-> Default(p)] /\ phase = "reading"
Write(l) == /\ phase = "reading" /\ Len(file) < MaxLeaves
            /\ \A i \in DOMAIN file : ~Prefix(file[i].p, l.p) /\ ~Prefix(l.p, file[i].p)
            /\ file' = Append(file, l)
            /\ IF l.p \in Settings /\ Fatal(l.p, l.v)
               THEN phase' = "refused" /\ UNCHANGED cfg
               ELSE /\ cfg' = IF l.p \in Settings THEN [cfg EXCEPT ![l.p] = Effect(l.p, l.v, @)] ELSE cfg
                    /\ UNCHANGED phase
Use == /\ phase = "reading"
       /\ phase' = IF \A p \in Ports : cfg[p] = Num(0) THEN "refused" ELSE "used"
       /\ UNCHANGED <<file, cfg>>
Next == Use \/ \E l \in Leaves : Write(l)
Spec == Init /\ [][Next]_vars

\* reading setting by setting is what the file as a whole means
Meaning == /\ phase = "used" => ~MustRefuse(Doc(file)) /\ \A p \in Settings : cfg[p] = Want(Doc(file), p)
           /\ phase = "refused" => MustRefuse(Doc(file))
\* in whatever order it is written
OrderFree == LET d == Doc(file) IN
  \A q \in SetToSeqs({file[i] : i \in DOMAIN file}) : LET e == Doc(q) IN
     MustRefuse(e) = MustRefuse(d) /\ \A p \in Settings : Want(e, p) = Want(d, p)
\* a setting has no influence on another one
Separate == \A p \in Settings : cfg[p] # Default(p) => \E i \in DOMAIN file : file[i].p = p
=============================================================================
