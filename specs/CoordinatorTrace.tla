--------------------------- MODULE CoordinatorTrace ---------------------------
(* Accepts the recorded executions of the real coordinator that are behaviours of Coordinator. *)
EXTENDS Coordinator, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tv == <<s, l>>
E == Trace[l]
Op(e) == IF e.op = "move" THEN [op |-> "move", xs |-> Range(e.xs)] ELSE e
TraceInit == l = 1 /\ s = Fresh
\* the statistics: the host of every shard, and per known node its status and number of shards
Shows(t) == /\ \A n \in Node : E.host[n] = t.host[n] /\ E.count[n] = Load(t.alloc, n)
            /\ E.total = Cardinality({x \in Shard : t.alloc[x] # 0})
            /\ \A x \in Shard : E.alloc[x] = t.alloc[x]
Tell(p, b) == {<<n, x, b[x]>> : n \in p.r \ {1}, x \in p.x}
Seen(o, p, b) ==
  /\ E.res[1] = p.res /\ (p.res \in {"allocated", "already"} => E.res[2] = b[o.x])
  /\ {<<m[1], m[2], m[3]>> : m \in Range(E.told)} = Tell(p, b)
  /\ {<<m[1], m[2]>> : m \in Range(E.stop)} = p.stop /\ Len(E.stop) = Cardinality(p.stop)
  /\ LET M == {<<m[1], m[2]>> : m \in Range(E.moved)} IN
     /\ {<<n, x>> : n \in p.r \ {1}, x \in p.moved} \subseteq M
     /\ {m[2] : m \in M} \subseteq p.moved \union (IF o.op = "move" THEN o.xs ELSE {})
TStep == LET o == Op(E)  b == [x \in Shard |-> E.alloc[x]] IN \E G \in Given(s, o) : LET p == Step(s, o, G) IN
  /\ Allots(p.a, p.r, p.x, b)
  /\ Seen(o, p, b) /\ Shows(After(p, b))
  /\ s' = After(p, b)
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (IF E.op = "init" THEN s' = [Fresh EXCEPT !.host = [n \in Node |-> E.host[n]]] ELSE TStep)
TraceSpec == TraceInit /\ [][TraceNext]_tv
TraceAccepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
                 ELSE PrintT("STUCK " \o ToString(TLCGet("stats").diameter)) /\ FALSE
===============================================================================
