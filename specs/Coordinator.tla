----------------------------- MODULE Coordinator -----------------------------
(* The shard coordinator (on node 1) by itself: which shards it allocates to which hosts, whom it tells, which shards it has       *)
(* stopped to move them, what it takes from a lost node, how it evens out the load after a join, and what comes back after it was  *)
(* restarted.  The other nodes answer stop requests whenever they like; node 1 does so at once.                                    *)
(* A step is a relation: the choices left open are the host among equally loaded ones, the order in which several shards are       *)
(* allocated, and which of its shards an overloaded host gives up.                                                                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS N, S
VARIABLES s
Node == 1..N
Shard == 1..S
Range(q) == {q[i] : i \in 1..Len(q)}

Ready(st) == {n \in Node : st.host[n] = "ready"}
Load(a, n) == Cardinality({x \in Shard : a[x] = n})
Least(a, R) == {n \in R : \A k \in R : Load(a, n) <= Load(a, k)}
\* b is a possible result of allocating the shards X, one after the other, each to a ready host with the fewest shards
RECURSIVE Allots(_, _, _, _)
Allots(a, R, X, b) ==
  IF X = {} THEN a = b
  ELSE \E x \in X : b[x] \in Least(a, R) /\ Allots([a EXCEPT ![x] = b[x]], R, X \ {x}, b)
Away(a, X) == [x \in Shard |-> IF x \in X THEN 0 ELSE a[x]]
Fresh == [alloc |-> [x \in Shard |-> 0], mov |-> [x \in Shard |-> 0], host |-> [n \in Node |-> IF n = 1 THEN "ready" ELSE "none"], pend |-> FALSE, jr |-> {}]
\* nobody but node 1 known, or the others known when the coordinator starts
Inits == {[Fresh EXCEPT !.host = [n \in Node |-> IF n = 1 \/ n \in K THEN "ready" ELSE "none"]] : K \in SUBSET Node}

\* the even share, rounded down; every ready host gives up what exceeds it, which of its shards is open
Share(st) == Cardinality({x \in Shard : st.alloc[x] # 0}) \div Cardinality(Ready(st))
Surplus(st, G) == \A n \in Ready(st) :
  LET l == Load(st.alloc, n) IN Cardinality({x \in G : st.alloc[x] = n}) = IF l > Share(st) THEN l - Share(st) ELSE 0
Given(st, o) == IF o.op = "all" \/ (o.op = "tick" /\ st.pend) THEN {G \in SUBSET {x \in Shard : st.alloc[x] # 0} : Surplus(st, G)}
                ELSE IF o.op = "move" THEN {{x \in o.xs : st.alloc[x] # 0}} ELSE {{}}

(* A step: from the allocation a the shards x are allocated to hosts among r; t is the state afterwards but for the allocation.     *)
(* Outside, the caller gets res, the hosts r are told of every new allocation, the hosts in stop are asked to stop a shard and all  *)
(* ready hosts are told which shards move.                                                                                         *)
Plan(a, x, r, t, res, stop, moved) == [a |-> a, x |-> x, r |-> r, t |-> t, res |-> res, stop |-> stop, moved |-> moved]
Same(st, res) == Plan(st.alloc, {}, Ready(st), st, res, {}, {})
Step(st, o, G) ==
  CASE o.op \in {"alloc", "late"} ->                             \* late: the journal rejects the write at first, and takes it when it is tried again
         IF st.alloc[o.x] # 0 THEN Same(st, "already")
         ELSE IF st.mov[o.x] # 0 THEN Same(st, "not")
         ELSE Plan(st.alloc, {o.x}, Ready(st), [st EXCEPT !.jr = @ \union {o.x}], "allocated", {}, {})
    [] o.op = "add" -> Same(IF st.host[o.n] = "ready" THEN st ELSE [st EXCEPT !.host[o.n] = "ready", !.pend = TRUE], "none")
    [] o.op = "del" -> IF st.host[o.n] = "none" THEN Same(st, "none") ELSE
         LET X == {x \in Shard : st.alloc[x] = o.n \/ st.mov[x] = o.n}
         IN Plan(Away(st.alloc, X), X, Ready(st) \ {o.n}, [st EXCEPT !.host[o.n] = "gone", !.mov = Away(@, X)], "none", {}, {})
    [] o.op \in {"tick", "all", "move"} ->                    \* the shards of node 1 have stopped at once
         LET H == {x \in G : st.alloc[x] = 1}
         IN Plan(Away(st.alloc, G), H, Ready(st), [st EXCEPT !.pend = (@ /\ o.op # "tick"), !.mov = [x \in Shard |-> IF x \in G \ H THEN st.alloc[x] ELSE st.mov[x]]],
                 "none", {<<st.alloc[x], x>> : x \in G \ H}, G)
    [] o.op = "stopped" -> IF st.mov[o.x] = 0 THEN Same(st, "none") ELSE Plan(st.alloc, {o.x}, Ready(st), [st EXCEPT !.mov[o.x] = 0], "none", {}, {})
    [] o.op = "restart" -> Plan([x \in Shard |-> 0], st.jr, Ready(st), [st EXCEPT !.mov = [x \in Shard |-> 0], !.pend = FALSE], "none", {}, {})
After(p, b) == [p.t EXCEPT !.alloc = b]

(* --------------------------------------------------------------------------------------------------- model checking *)
Ops(st) == {[op |-> o, x |-> x] : o \in {"alloc", "late"}, x \in Shard} \union {[op |-> o, n |-> n] : o \in {"add", "del"}, n \in Node \ {1}}
           \union {[op |-> o] : o \in {"tick", "all", "restart"}} \union {[op |-> "move", xs |-> {x, y}] : x \in Shard, y \in Shard}
           \union {[op |-> "stopped", x |-> x] : x \in {y \in Shard : st.mov[y] # 0}}
RECURSIVE All(_, _, _)
All(a, R, X) == IF X = {} THEN {a} ELSE UNION {UNION {All([a EXCEPT ![x] = k], R, X \ {x}) : k \in Least(a, R)} : x \in X}
Init == s \in Inits
Next == \E o \in Ops(s) : \E G \in Given(s, o) : LET p == Step(s, o, G) IN \E b \in All(p.a, p.r, p.x) : Allots(p.a, p.r, p.x, b) /\ s' = After(p, b)
Spec == Init /\ [][Next]_s

(* ------------------------------------------------------------------------------------------------------- properties *)
\* C01: allocated shards are on ready hosts, a shard is not allocated while it is being moved, and every allocated or moving shard is in the journal
OnReady == \A x \in Shard : s.alloc[x] # 0 => s.host[s.alloc[x]] = "ready"
Exclusive == \A x \in Shard : ~(s.alloc[x] # 0 /\ s.mov[x] # 0)
Durable == {x \in Shard : s.alloc[x] # 0 \/ s.mov[x] # 0} = s.jr
\* C02: nothing stays with a lost node, and once nothing is under way no host exceeds the even share by a whole shard or more
NotOnLost == \A x \in Shard : s.host[IF s.mov[x] # 0 THEN s.mov[x] ELSE IF s.alloc[x] # 0 THEN s.alloc[x] ELSE 1] = "ready"
Balanced == (~s.pend /\ \A x \in Shard : s.mov[x] = 0) => \A n \in Ready(s) : Load(s.alloc, n) * Cardinality(Ready(s)) < Cardinality(s.jr) + Cardinality(Ready(s))
\* C01, C02: an allocated shard stays where it is unless it was asked to move, its node was lost, or its node exceeded its share
Stays == [][\A x \in Shard : (s.alloc[x] # 0 /\ s'.alloc[x] # s.alloc[x]) =>
              \/ s'.host[s.alloc[x]] # "ready"                                     \* lost
              \/ s'.mov[x] = s.alloc[x]                                            \* being moved
              \/ s.alloc[x] = 1                                                    \* moved from node 1, at once
              \/ \A y \in Shard : s'.mov[y] = 0 ]_s                                \* restarted
==============================================================================
