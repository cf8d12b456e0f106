----------------------------- MODULE ConfigUse ------------------------------
(* What a server started with a configuration file does, as far as it can be  *)
(* seen from outside: where it listens, the plugins it starts, the icon it    *)
(* serves, the hosts it answers to; and that no value whatsoever makes it     *)
(* crash.                                                                      *)
EXTENDS Config, Json, TLC
VARIABLE t
Traces == JsonDeserialize("traces.json")

\* T: [d, plugins (the files that are subprotocols), icons (the files that can be read), out]
Text1(v) == IF v.t = "str" THEN v.s ELSE "(null)"
Started(T) ==
  LET d == T.d
      o == T.out
      subs == SelectSeq(Want(d, S(<<"subprotocols">>)), LAMBDA e : e.f.s \in ToSet(T.plugins))
      icon == Want(d, S(<<"favicon">>))
      http == Want(d, S(<<"port", "http">>)).i[3]
  IN /\ o.listens \ {0} = {http} \ {0}    \* what 0 means is not documented
     \* every usable subprotocol is started, once, in order, with its own configuration
     /\ o.inits = [i \in DOMAIN subs |-> Text1(subs[i].c)]
     \* the icon is served as it is, or is not found
     /\ o.icon \in (IF icon.t = "str" /\ icon.s \in ToSet(T.icons) THEN {"same"} ELSE {"none", "empty"})
     \* the first connection names a host and asks for the subprotocol of the last plugin:
     \* taken iff the host is among the hosts, or there are none, and the plugin is usable
     /\ o.host # "" => (o.taken <=> /\ Hosts(d).all = {} \/ o.host \in Hosts(d).all
                                    /\ \E i \in DOMAIN subs : subs[i].f.s = T.plugins[Len(T.plugins)])
Fits(T) == /\ ~T.out.crashed
           /\ IF T.out.ran THEN ~MustRefuse(T.d) /\ (T.out.full => Started([T EXCEPT !.out.listens = ToSet(@)]))
              ELSE MustRefuse(T.d) \/ MayRefuse(T.d) \/ T.mayexit

TInit == t \in DOMAIN Traces /\ Init
TNext == phase = "reading" /\ phase' = "judged" /\ Fits(Traces[t]) /\ UNCHANGED <<file, cfg, t>>
TSpec == TInit /\ [][TNext]_<<vars, t>>
Report == phase = "judged" => PrintT(<<"ACCEPT", t>>)
=============================================================================
