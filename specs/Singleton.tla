----------------------------- MODULE Singleton -----------------------------
(* A cluster singleton: on every node a manager, which asks the managers of all other nodes for the lease before it starts the     *)
(* instance, and a proxy through which messages are sent to the instance.                                                          *)
(*                                                                                                                                 *)
(* Assumed of the environment: messages between two managers arrive in the order they were sent; a manager exists before its node  *)
(* is told that it joined; a manager learns of a member before messages of that member reach it; a node is reported removed only   *)
(* after it stopped.  Nothing else is assumed of the order in which the members see leader changes, joins and departures.          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS N, Late,        \* nodes; how many of them (the last ones) join later
          MaxLead, MaxMsgs, MaxCrash, Kinds, MaxOps
VARIABLES s, hist
SimLen == atoi(IOEnv.SIMLEN)
Node == 1..N

Inits == {[ph    |-> [i \in Node |-> "joining"],       \* joining, idle, starting, launch, running, stopping, dead
           inst  |-> [i \in Node |-> "none"],          \* none, starting, running, stopping: by its start and stop hooks
           mem   |-> 1..(N - Late),
           mgrs  |-> [i \in Node |-> {}],
           ldr   |-> [i \in Node |-> 0],
           acks  |-> [i \in Node |-> {}],
           pend  |-> [i \in Node |-> {}],
           chan  |-> [i \in Node |-> [j \in Node |-> <<>>]],
           act   |-> [i \in Node |-> <<>>],            \* the instances the proxy knows of, the latest last
           q     |-> [i \in Node |-> <<>>],
           msg   |-> <<>>, nl |-> 0, nc |-> 0, no |-> 0]}

Alive(st) == {i \in st.mem : st.ph[i] # "dead"}
Gone(st, i) == {j \in st.mem : st.ph[j] = "dead" /\ (j \in st.mgrs[i] \/ \E p \in 1..Len(st.act[i]) : st.act[i][p] = j)}
Joined(st, i) == i \in Alive(st) /\ st.ph[i] # "joining"

(* --------------------------------------------------------------------------------------------------------- managers *)
Put(st, i, j, m) == IF st.ph[j] = "dead" THEN st ELSE [st EXCEPT !.chan[i][j] = Append(@, m)]
RECURSIVE PutAll(_, _, _, _)
PutAll(st, i, js, m) == IF js = {} THEN st ELSE LET j == CHOOSE x \in js : TRUE IN PutAll(Put(st, i, j, m), i, js \ {j}, m)

\* the proxy of i hears of an instance on node t: it sends everything it holds there
Handle(st, m, t) == [st EXCEPT !.msg[m].st = "done", !.msg[m].h = Append(@, t), !.msg[m].res = "ok"]
AtInst(st, m, t) == CASE st.inst[t] = "running" -> Handle(st, m, t)
                      [] st.inst[t] = "none" -> [st EXCEPT !.msg[m].st = "done", !.msg[m].res = IF st.msg[m].k = "note" THEN "ok" ELSE "NotFound"]
                      [] OTHER -> [st EXCEPT !.msg[m].st = "box", !.msg[m].to = t]
Dispatch(st, m, i, t) == IF t = i THEN AtInst(st, m, t)
                         ELSE [st EXCEPT !.msg[m].st = IF st.ph[t] = "dead" THEN "lost" ELSE "net", !.msg[m].to = t]
RECURSIVE Flush(_, _, _)
Flush(st, i, t) == IF st.q[i] = <<>> THEN st ELSE Flush(Dispatch([st EXCEPT !.q[i] = Tail(@)], Head(st.q[i]), i, t), i, t)
Without(sq, t) == SelectSeq(sq, LAMBDA x : x # t)
ProxyStarted(st, i, t) == Flush([st EXCEPT !.act[i] = Append(Without(@, t), t)], i, t)
ProxyStopping(st, i, t) == [st EXCEPT !.act[i] = Without(@, t)]

IsLeader(st, i) == st.ldr[i] = i
GrantAll(st, i) == [PutAll(st, i, st.pend[i] \cap st.mgrs[i], "ack") EXCEPT !.pend[i] = {}]
BeginStopping(st, i) == [PutAll(ProxyStopping(st, i, i), i, st.mgrs[i], "stopped") EXCEPT !.ph[i] = "stopping", !.inst[i] = "stopping"]
Release(st, i) == CASE st.ph[i] = "idle" -> GrantAll(st, i)
                    [] st.ph[i] = "starting" /\ ~IsLeader(st, i) -> GrantAll([st EXCEPT !.ph[i] = "idle"], i)
                    [] st.ph[i] = "running" /\ ~IsLeader(st, i) /\ st.pend[i] # {} -> BeginStopping(st, i)
                    [] OTHER -> st
StartIfAcked(st, i) == IF st.ph[i] = "starting" /\ st.mgrs[i] \subseteq st.acks[i]
                       THEN [st EXCEPT !.ph[i] = "launch", !.inst[i] = "starting"] ELSE st
BeginStarting(st, i) == StartIfAcked(PutAll([st EXCEPT !.ph[i] = "starting", !.acks[i] = {}], i, st.mgrs[i], "req"), i)

Receive(st, i, j, m) ==   \* manager j gets m from i
  CASE m = "req"     -> Release([st EXCEPT !.pend[j] = @ \union {i}], j)
    [] m = "ack"     -> IF st.ph[j] = "starting" THEN StartIfAcked([st EXCEPT !.acks[j] = @ \union {i}], j) ELSE st
    [] m = "started" -> ProxyStarted(st, j, i)
    [] m = "stopped" -> ProxyStopping(st, j, i)

(* -------------------------------------------------------------------------------------------------------------- steps *)
Ops(st) == IF st.no >= MaxOps THEN {} ELSE
     {[op |-> "memberup", i |-> i, l |-> l] : i \in {x \in Alive(st) : st.ph[x] = "joining"}, l \in Alive(st)}
  \union (IF st.nl >= MaxLead THEN {} ELSE UNION {{[op |-> "leader", i |-> i, l |-> l] : l \in (st.mgrs[i] \union {i}) \ {st.ldr[i]}} : i \in {x \in Alive(st) : Joined(st, x)}})
  \union {[op |-> "join", i |-> i] : i \in {x \in Node : x \notin st.mem /\ \A y \in Node : y < x => y \in st.mem}}
  \union UNION {{[op |-> "added", i |-> i, j |-> j] : j \in (Alive(st) \ st.mgrs[i]) \ {i}} : i \in {x \in Alive(st) : Joined(st, x)}}
  \union UNION {{[op |-> "removed", i |-> i, j |-> j] : j \in Gone(st, i)} : i \in Alive(st)}
  \union (IF st.nc >= MaxCrash \/ Cardinality(Alive(st)) = 1 THEN {} ELSE {[op |-> "crash", i |-> i] : i \in Alive(st)})
  \union UNION {{[op |-> "deliver", i |-> i, j |-> j] : j \in {y \in Alive(st) : st.chan[i][y] # <<>> /\ (i \in st.mgrs[y] \/ st.ph[y] = "joining")}} : i \in Alive(st)}
  \union {[op |-> "up", i |-> i] : i \in {x \in Alive(st) : st.inst[x] = "starting"}}
  \union {[op |-> "down", i |-> i] : i \in {x \in Alive(st) : st.inst[x] = "stopping"}}
  \union (IF Len(st.msg) >= MaxMsgs THEN {} ELSE {[op |-> "send", i |-> i, k |-> k] : i \in Alive(st), k \in Kinds})
  \union {[op |-> "arrive", m |-> m] : m \in {x \in 1..Len(st.msg) : st.msg[x].st = "net"}}

RECURSIVE HandleBox(_, _, _)
HandleBox(st, i, m) == IF m > Len(st.msg) THEN st
                       ELSE HandleBox(IF st.msg[m].st = "box" /\ st.msg[m].to = i THEN Handle(st, m, i) ELSE st, i, m + 1)
Up(st, i) == LET a == HandleBox([st EXCEPT !.inst[i] = "running", !.ph[i] = "running"], i, 1)
                 b == Release(a, i)
             IN IF b.ph[i] = "running" THEN PutAll(ProxyStarted(b, i, i), i, st.mgrs[i], "started") ELSE b   \* not announced if it has to go at once
Down(st, i) == LET a == [st EXCEPT !.inst[i] = "none", !.ph[i] = "idle",
                                   !.msg = [m \in 1..Len(st.msg) |-> IF st.msg[m].st = "box" /\ st.msg[m].to = i
                                              THEN [st.msg[m] EXCEPT !.st = "done", !.res = IF @ = "ok" THEN "ok" ELSE "closed|NotFound"] ELSE st.msg[m]]]
                   b == Release(a, i)
               IN IF IsLeader(b, i) THEN BeginStarting(b, i) ELSE b
Crash(st, i) == [st EXCEPT !.ph[i] = "dead", !.inst[i] = "none", !.nc = @ + 1, !.q[i] = <<>>,
                           !.chan = [a \in Node |-> [b \in Node |-> IF a = i \/ b = i THEN <<>> ELSE st.chan[a][b]]],
                           !.msg = [m \in 1..Len(st.msg) |-> IF st.msg[m].st # "done" /\ (st.msg[m].from = i \/ (st.msg[m].to = i /\ st.msg[m].st \in {"net", "box"}))
                                      THEN [st.msg[m] EXCEPT !.st = "lost"] ELSE st.msg[m]]]

Do(st, o) ==
  CASE o.op = "memberup" ->
         LET a == Release([st EXCEPT !.mgrs[o.i] = (@ \union Alive(st)) \ {o.i}, !.ldr[o.i] = o.l, !.ph[o.i] = "idle"], o.i)
         IN IF o.l = o.i THEN BeginStarting(a, o.i) ELSE a
    [] o.op = "leader" ->
         LET a == [st EXCEPT !.ldr[o.i] = o.l, !.nl = @ + 1]
         IN IF o.l # o.i THEN Release(a, o.i) ELSE IF a.ph[o.i] = "idle" THEN BeginStarting(a, o.i) ELSE a
    [] o.op = "join" -> [st EXCEPT !.mem = @ \union {o.i}]
    [] o.op = "added" ->
         LET a == [st EXCEPT !.mgrs[o.i] = @ \union {o.j}]
         IN CASE st.ph[o.i] \in {"starting", "launch"} -> Put(a, o.i, o.j, "req")
              [] st.ph[o.i] = "running" -> Put(a, o.i, o.j, "started")
              [] OTHER -> a
    [] o.op = "removed" -> StartIfAcked(ProxyStopping([st EXCEPT !.mgrs[o.i] = @ \ {o.j}], o.i, o.j), o.i)
    [] o.op = "crash" -> Crash(st, o.i)
    [] o.op = "deliver" -> Receive([st EXCEPT !.chan[o.i][o.j] = Tail(@)], o.i, o.j, Head(st.chan[o.i][o.j]))
    [] o.op = "up" -> Up(st, o.i)
    [] o.op = "down" -> Down(st, o.i)
    [] o.op = "send" ->
         LET m == Len(st.msg) + 1
             a == [st EXCEPT !.msg = Append(@, [from |-> o.i, k |-> o.k, st |-> "held", to |-> 0, h |-> <<>>, res |-> IF o.k = "note" THEN "ok" ELSE "pending"])]
         IN IF st.act[o.i] = <<>> THEN [a EXCEPT !.q[o.i] = Append(@, m)] ELSE Dispatch(a, m, o.i, st.act[o.i][Len(st.act[o.i])])
    [] o.op = "arrive" -> AtInst(st, o.m, st.msg[o.m].to)
Apply(st, o) == [Do(st, o) EXCEPT !.no = @ + 1]

Obs(st) == [inst |-> st.inst, chan |-> st.chan,
            msg |-> [m \in 1..Len(st.msg) |-> [h |-> st.msg[m].h, res |-> IF st.msg[m].from \in Alive(st) THEN st.msg[m].res ELSE "any",
                                               net |-> IF st.msg[m].st = "net" THEN st.msg[m].to ELSE 0]]]

Init == s \in Inits /\ hist = <<>>
Next == \E o \in Ops(s) : s' = Apply(s, o) /\ UNCHANGED hist
Spec == Init /\ [][Next]_<<s, hist>>
InitQ == s \in Inits /\ hist = <<[op |-> "init", n |-> N, late |-> Late, obs |-> Obs(s)]>>
NextQ == \E o \in Ops(s) : s' = Apply(s, o) /\ hist' = Append(hist, o @@ [obs |-> Obs(s')])
SpecQ == InitQ /\ [][NextQ]_<<s, hist>>
Emit == PrintT(ToJson(hist'))
View == [s EXCEPT !.no = 0]
EmitEnd == (Len(hist) = SimLen \/ Ops(s) = {}) => PrintT(ToJson(hist))

(* --------------------------------------------------------------------------------------------------------- properties *)
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
\* D01
OneInstance == Cardinality({i \in Alive(s) : s.inst[i] # "none"}) <= 1
\* D02: when everyone agrees on a living leader and nothing is under way, the instance runs there and every proxy knows it
Quiet == /\ \A i \in Alive(s) : Joined(s, i) /\ s.inst[i] \in {"none", "running"} /\ s.mgrs[i] = Alive(s) \ {i} /\ Gone(s, i) = {}
         /\ \A i, j \in Alive(s) : s.chan[i][j] = <<>>
         /\ \E l \in Alive(s) : \A i \in Alive(s) : s.ldr[i] = l
OnLeader == Quiet => LET l == s.ldr[Min(Alive(s))] IN
              /\ s.inst[l] = "running"
              /\ \A i \in Alive(s) : s.act[i] # <<>> /\ s.act[i][Len(s.act[i])] = l
\* D03
Once == \A m \in 1..Len(s.msg) : Len(s.msg[m].h) <= 1
Answered == \A m \in 1..Len(s.msg) : /\ (s.msg[m].k = "ask" /\ s.msg[m].res = "ok") => Len(s.msg[m].h) = 1
                                     /\ s.msg[m].st \in {"net", "box", "lost", "done"} \/ \E p \in 1..Len(s.q[s.msg[m].from]) : s.q[s.msg[m].from][p] = m
Held == Quiet => \A i \in Alive(s) : s.q[i] = <<>>
HeldNotFailed == [][\A m \in 1..Len(s.msg) : (s.msg[m].st = "held" /\ s'.msg[m].st = "done") => Len(s'.msg[m].h) = 1]_<<s, hist>>
=============================================================================
