------------------------------ MODULE Sharding ------------------------------
(* Sharded entities on N nodes: the coordinator (on node 1) allocates shards to the shard hosts and moves them, a host starts and  *)
(* stops the shards it was given, forwards requests to the host of the shard and keeps those it cannot forward yet, a shard starts *)
(* its entity (one entity per shard here) on the first request and again whenever the shard is started.                            *)
(*                                                                                                                                 *)
(* Assumed of the environment: the allocation and stop messages of one shard arrive at a host in the order the coordinator sent    *)
(* them, and replies to them return as soon as they were handled; everything else arrives in any order and at any time.  A node    *)
(* is reported removed only after it stopped.  Journal writes succeed.                                                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS N, S,
          Gates,                      \* which steps take time: subset of {"shard", "up", "down"}
          Senders, MaxMsgs, MaxMoves, MaxCrash, MaxOps,
          Stable                      \* behaviours to replay only: among equally loaded hosts the same one is always preferred
VARIABLES s, hist
SimLen == atoi(IOEnv.SIMLEN)
Node == 1..N
Shard == 1..S

Grid(v) == [n \in Node |-> [x \in Shard |-> v]]
Prefs == IF Stable THEN {p \in [1..N -> Node] : \A i, j \in 1..N : i # j => p[i] # p[j]} ELSE {<<>>}
Inits == {[pref  |-> pref, off |-> FALSE,
           alloc |-> [x \in Shard |-> 0], mov |-> [x \in Shard |-> 0], ready |-> Node,       \* the coordinator
           hs    |-> Grid("none"),       \* what the host knows of the shard: none, starting, ready, stopping
           sh    |-> Grid("off"),        \* the shard itself: off, rec(overing), up
           sq    |-> Grid(0),            \* stop requests to be answered
           rem   |-> Grid(0),            \* the node the host believes the shard to be on
           pend  |-> Grid(<<>>),         \* requests waiting for the shard to be allocated
           buf   |-> Grid(<<>>),         \* requests waiting in the host for the shard to start or stop
           box   |-> Grid(<<>>),         \* requests of other nodes in the mailbox of a recovering shard
           late  |-> Grid(<<>>),         \* requests of other nodes in the mailbox of a stopping shard
           ent   |-> Grid("none"),       \* none, starting, running, stopping: by its start and stop hooks
           ebuf  |-> Grid(<<>>),         \* requests waiting for the entity to start
           jr    |-> [x \in Shard |-> FALSE],
           ctl   |-> Grid(<<>>),         \* coordinator to host: stop, and alloc with the hosts to be told afterwards
           rl    |-> Grid(0),            \* coordinator to host: reallocating
           ar    |-> Grid(0),            \* host to coordinator: allocate
           sr    |-> Grid(0),            \* host to coordinator: stopped
           msg   |-> <<>>, dead |-> {}, nm |-> 0, nc |-> 0, no |-> 0,
           ch    |-> [x \in Shard |-> 1], used |-> {}, bad |-> FALSE] : pref \in Prefs}

Alive(st) == Node \ st.dead
Load(st, n) == Cardinality({x \in Shard : st.alloc[x] = n})
Least(st) == {n \in st.ready : \A k \in st.ready : Load(st, n) <= Load(st, k)}

(* ------------------------------------------------------------------------------------------------------------- shards *)
Answer(st, m, n, r) == IF st.msg[m].i \in st.dead THEN [st EXCEPT !.msg[m].st = "lost"]
                       ELSE IF st.msg[m].i = n THEN [st EXCEPT !.msg[m].st = "done", !.msg[m].res = r]
                       ELSE [st EXCEPT !.msg[m].st = "reply", !.msg[m].r = r, !.msg[m].to = n]
Handle(st, m, n) == Answer([st EXCEPT !.msg[m].h = Append(@, n)], m, n, "ok")
RECURSIVE HandleAll(_, _, _), AnswerAll(_, _, _, _), LateAll(_, _)
HandleAll(st, q, n) == IF q = <<>> THEN st ELSE HandleAll(Handle(st, Head(q), n), Tail(q), n)
AnswerAll(st, q, n, r) == IF q = <<>> THEN st ELSE AnswerAll(Answer(st, Head(q), n, r), Tail(q), n, r)
LateAll(st, q) == IF q = <<>> THEN st ELSE LateAll([st EXCEPT !.msg[Head(q)].st = "done", !.msg[Head(q)].res = "closed"], Tail(q))
EntUp(st, n, x) == HandleAll([st EXCEPT !.ent[n][x] = "running", !.ebuf[n][x] = <<>>], st.ebuf[n][x], n)
EntStart(st, n, x) == IF "up" \in Gates THEN [st EXCEPT !.ent[n][x] = "starting"] ELSE EntUp([st EXCEPT !.ent[n][x] = "starting"], n, x)
ShardReq(st, n, m) == LET x == st.msg[m].s IN
  CASE st.ent[n][x] = "none"     -> EntStart([st EXCEPT !.jr[x] = TRUE, !.ebuf[n][x] = <<m>>, !.msg[m].st = "at"], n, x)
    [] st.ent[n][x] = "starting" -> [st EXCEPT !.ebuf[n][x] = Append(@, m), !.msg[m].st = "at"]
    [] st.ent[n][x] = "running"  -> Handle(st, m, n)
RECURSIVE ShardReqs(_, _, _)
ShardReqs(st, n, q) == IF q = <<>> THEN st ELSE ShardReqs(ShardReq(st, n, Head(q)), n, Tail(q))

(* -------------------------------------------------------------------------------------------- hosts and the coordinator *)
RECURSIVE HostAlloc(_, _, _, _), HostReq(_, _, _), HostReqs(_, _, _), CoordAlloc(_, _, _), Allocate(_, _), HostStop(_, _, _, _),
          Stopping(_, _, _), HostStopped(_, _, _), Stopped(_, _), Reply(_, _, _, _), Open(_, _, _), Tell(_, _, _, _)

\* the coordinator tells hosts of an allocation
Tell(st, to, x, k) == IF to = {} THEN st ELSE
  LET n == CHOOSE i \in to : TRUE
      a == IF n \in st.dead THEN st ELSE IF n = 1 THEN HostAlloc(st, 1, x, k) ELSE [st EXCEPT !.ctl[n][x] = Append(@, [t |-> "alloc", k |-> k, then |-> {}])]
  IN Tell(a, to \ {n}, x, k)
Allocate(st, x) ==
  LET k == st.ch[x]
      a == [st EXCEPT !.alloc[x] = k, !.mov[x] = 0, !.used = @ \union {x}, !.bad = @ \/ k \notin Least(st),
                      !.off = @ \/ (Stable /\ \E n \in Least(st) : \E i, j \in 1..N : i < j /\ st.pref[i] = n /\ st.pref[j] = k)]
  IN IF k = 1 THEN Tell(HostAlloc(a, 1, x, 1), a.ready \ {1}, x, 1)
     ELSE IF k \in a.dead THEN a ELSE [a EXCEPT !.ctl[k][x] = Append(@, [t |-> "alloc", k |-> k, then |-> a.ready \ {k}])]
CoordAlloc(st, n, x) ==
  IF st.alloc[x] # 0 THEN HostAlloc(st, n, x, st.alloc[x])
  ELSE IF st.mov[x] # 0 THEN st
  ELSE LET a == Allocate(st, x) IN HostAlloc(a, n, x, a.alloc[x])
Stopped(st, x) == IF st.mov[x] # 0 /\ st.alloc[x] = 0 THEN Allocate(st, x) ELSE st
Reply(st, n, x, c) == IF c = 0 THEN st ELSE IF n = 1 THEN Stopped(st, x) ELSE [st EXCEPT !.sr[n][x] = @ + c]

HostAlloc(st, n, x, k) ==
  LET a == IF k = n THEN LET b == [st EXCEPT !.rem[n][x] = 0] IN
                         IF b.hs[n][x] # "none" THEN b
                         ELSE LET c == [b EXCEPT !.hs[n][x] = "starting", !.sh[n][x] = "rec"] IN IF "shard" \in Gates THEN c ELSE Open(c, n, x)
           ELSE LET b == IF st.hs[n][x] = "none" THEN st ELSE HostStop(st, n, x, 0) IN [b EXCEPT !.rem[n][x] = k]
  IN HostReqs([a EXCEPT !.pend[n][x] = <<>>], n, a.pend[n][x])
HostReqs(st, n, q) == IF q = <<>> THEN st ELSE HostReqs(HostReq(st, n, Head(q)), n, Tail(q))
HostReq(st, n, m) ==
  LET x == st.msg[m].s IN
  CASE st.hs[n][x] \in {"starting", "stopping"} -> [st EXCEPT !.buf[n][x] = Append(@, m), !.msg[m].st = "at"]
    [] st.hs[n][x] = "ready" -> ShardReq(st, n, m)
    [] st.hs[n][x] = "none" /\ st.rem[n][x] # 0 -> [st EXCEPT !.msg[m].st = IF st.rem[n][x] \in st.dead THEN "lost" ELSE "net", !.msg[m].to = st.rem[n][x]]
    [] OTHER -> LET a == [st EXCEPT !.pend[n][x] = Append(@, m), !.msg[m].st = "at"]
                IN IF n = 1 THEN CoordAlloc(a, 1, x) ELSE [a EXCEPT !.ar[n][x] = @ + 1]
HostStop(st, n, x, c) ==
  CASE st.hs[n][x] = "none"     -> Reply(st, n, x, c)
    [] st.hs[n][x] = "stopping" -> [st EXCEPT !.sq[n][x] = @ + c]
    [] OTHER                    -> LET a == [st EXCEPT !.hs[n][x] = "stopping", !.sq[n][x] = c]
                                   IN IF st.sh[n][x] = "up" THEN Stopping(a, n, x) ELSE a
Stopping(st, n, x) ==
  CASE st.ent[n][x] = "running"  -> IF "down" \in Gates THEN [st EXCEPT !.ent[n][x] = "stopping"] ELSE HostStopped([st EXCEPT !.ent[n][x] = "none"], n, x)
    [] st.ent[n][x] = "starting" -> st
    [] st.ent[n][x] = "none"     -> HostStopped(st, n, x)
HostStopped(st, n, x) ==
  LET a == LateAll(AnswerAll([st EXCEPT !.hs[n][x] = "none", !.sh[n][x] = "off", !.sq[n][x] = 0, !.buf[n][x] = <<>>, !.ebuf[n][x] = <<>>, !.late[n][x] = <<>>],
                             st.ebuf[n][x], n, "closed"), st.late[n][x])
  IN HostReqs(Reply(a, n, x, st.sq[n][x]), n, st.buf[n][x])
\* the shard has read its journal
Open(st, n, x) ==
  LET a == [st EXCEPT !.sh[n][x] = "up", !.box[n][x] = <<>>]
      b == IF a.jr[x] THEN EntStart(a, n, x) ELSE a
      c == ShardReqs(b, n, st.box[n][x])
  IN IF st.hs[n][x] = "stopping" THEN Stopping(c, n, x)
     ELSE ShardReqs([c EXCEPT !.hs[n][x] = "ready", !.buf[n][x] = <<>>], n, st.buf[n][x])

Arrive(st, m) == LET n == st.msg[m].to  x == st.msg[m].s IN
  CASE st.sh[n][x] = "off" -> [st EXCEPT !.msg[m].st = "done", !.msg[m].res = "NotFound"]
    [] st.hs[n][x] = "stopping" -> [st EXCEPT !.late[n][x] = Append(@, m), !.msg[m].st = "at"]
    [] st.sh[n][x] = "rec" -> [st EXCEPT !.box[n][x] = Append(@, m), !.msg[m].st = "at"]
    [] OTHER -> ShardReq(st, n, m)

Move(st, x) ==
  LET k == st.alloc[x]
      a == [st EXCEPT !.alloc[x] = 0, !.mov[x] = k, !.nm = @ + 1, !.rem[1][x] = 0,
                      !.rl = [n \in Node |-> IF n = 1 \/ n \in st.dead THEN st.rl[n] ELSE [st.rl[n] EXCEPT ![x] = @ + 1]]]
  IN IF k = 1 THEN HostStop(a, 1, x, 1)
     ELSE IF k \in st.dead THEN a ELSE [a EXCEPT !.ctl[k][x] = Append(@, [t |-> "stop", k |-> 0, then |-> {}])]
RECURSIVE Reassign(_, _)
Reassign(st, q) == IF q = <<>> THEN st ELSE Reassign(Allocate(st, Head(q)), Tail(q))
Affected(st, n) == {x \in Shard : st.alloc[x] = n \/ st.mov[x] = n}
Crash(st, i) ==
  LET z(g, v) == [n \in Node |-> IF n = i THEN [x \in Shard |-> v] ELSE g[n]] IN
  [st EXCEPT !.dead = @ \union {i}, !.nc = @ + 1,
             !.hs = z(@, "none"), !.sh = z(@, "off"), !.sq = z(@, 0), !.rem = z(@, 0), !.pend = z(@, <<>>), !.buf = z(@, <<>>), !.box = z(@, <<>>),
             !.late = z(@, <<>>), !.ent = z(@, "none"), !.ebuf = z(@, <<>>), !.ctl = z(@, <<>>), !.rl = z(@, 0), !.ar = z(@, 0), !.sr = z(@, 0),
             !.msg = [m \in 1..Len(st.msg) |-> LET r == st.msg[m]
                        IN IF r.st = "done" THEN r
                           ELSE IF r.i = i \/ (r.to = i /\ r.st \in {"net", "reply"}) \/ (r.to = i /\ r.st = "at") THEN [r EXCEPT !.st = "lost"] ELSE r]]

(* -------------------------------------------------------------------------------------------------------------- steps *)
Seqs(D) == {q \in [1..Cardinality(D) -> D] : \A a, b \in 1..Cardinality(D) : a # b => q[a] # q[b]}
Do(st, o) ==
  CASE o.op = "send" -> HostReq([st EXCEPT !.msg = Append(@, [i |-> o.i, s |-> o.s, st |-> "at", to |-> o.i, h |-> <<>>, r |-> "", res |-> "pending"])], o.i, Len(st.msg) + 1)
    [] o.op = "areq" -> CoordAlloc([st EXCEPT !.ar[o.i][o.s] = @ - 1], o.i, o.s)
    [] o.op = "ctl" -> LET c == Head(st.ctl[o.i][o.s])
                           a == [st EXCEPT !.ctl[o.i][o.s] = Tail(@)]
                       IN IF c.t = "stop" THEN HostStop(a, o.i, o.s, 1) ELSE Tell(HostAlloc(a, o.i, o.s, c.k), c.then, o.s, c.k)
    [] o.op = "realloc" -> [st EXCEPT !.rl[o.i][o.s] = @ - 1, !.rem[o.i][o.s] = 0]
    [] o.op = "stopped" -> Stopped([st EXCEPT !.sr[o.i][o.s] = @ - 1], o.s)
    [] o.op = "open" -> Open(st, o.i, o.s)
    [] o.op = "up" -> IF st.hs[o.i][o.s] = "stopping" THEN Stopping([st EXCEPT !.ent[o.i][o.s] = "running"], o.i, o.s) ELSE EntUp(st, o.i, o.s)
    [] o.op = "down" -> HostStopped([st EXCEPT !.ent[o.i][o.s] = "none"], o.i, o.s)
    [] o.op = "move" -> Move(st, o.s)
    [] o.op = "arrive" -> Arrive(st, o.m)
    [] o.op = "reply" -> [st EXCEPT !.msg[o.m].st = "done", !.msg[o.m].res = st.msg[o.m].r]
    [] o.op = "crash" -> Crash(st, o.i)
    [] o.op = "removed" -> Reassign([st EXCEPT !.ready = @ \ {o.i}, !.alloc = [x \in Shard |-> IF @[x] = o.i THEN 0 ELSE @[x]],
                                               !.mov = [x \in Shard |-> IF @[x] = o.i THEN 0 ELSE @[x]]], o.q)
Far(st) == Alive(st) \ {1}
\* requests of the coordinator's own node are not kept while its shard stops: whether they or the reply get to the coordinator first is open
Base(st) == IF st.no >= MaxOps THEN {} ELSE
     (IF Len(st.msg) >= MaxMsgs THEN {} ELSE {[op |-> "send", i |-> i, s |-> x] : i \in {n \in Alive(st) : n \in Senders}, x \in Shard} \ {[op |-> "send", i |-> 1, s |-> x] : x \in {y \in Shard : st.mov[y] = 1}})
  \union {o \in {[op |-> "areq", i |-> i, s |-> x] : i \in Far(st), x \in Shard} : st.ar[o.i][o.s] > 0}
  \union {o \in {[op |-> "ctl", i |-> i, s |-> x] : i \in Far(st), x \in Shard} : st.ctl[o.i][o.s] # <<>>}
  \union {o \in {[op |-> "realloc", i |-> i, s |-> x] : i \in Far(st), x \in Shard} : st.rl[o.i][o.s] > 0}
  \union {o \in {[op |-> "stopped", i |-> i, s |-> x] : i \in Far(st), x \in Shard} : st.sr[o.i][o.s] > 0}
  \union {o \in {[op |-> "open", i |-> i, s |-> x] : i \in Alive(st), x \in Shard} : st.sh[o.i][o.s] = "rec"}
  \union {o \in {[op |-> "up", i |-> i, s |-> x] : i \in Alive(st), x \in Shard} : st.ent[o.i][o.s] = "starting"}
  \union {o \in {[op |-> "down", i |-> i, s |-> x] : i \in Alive(st), x \in Shard} : st.ent[o.i][o.s] = "stopping"}
  \union (IF st.nm >= MaxMoves THEN {} ELSE {[op |-> "move", s |-> x] : x \in {y \in Shard : st.alloc[y] # 0 /\ ~(st.alloc[y] = 1 /\ st.buf[1][y] # <<>>)}})
  \union {[op |-> "arrive", m |-> m] : m \in {y \in 1..Len(st.msg) : st.msg[y].st = "net"}}
  \union {[op |-> "reply", m |-> m] : m \in {y \in 1..Len(st.msg) : st.msg[y].st = "reply"}}
  \union (IF st.nc >= MaxCrash THEN {} ELSE {[op |-> "crash", i |-> i] : i \in Far(st)})
  \union UNION {{[op |-> "removed", i |-> i, q |-> q] : q \in Seqs(Affected(st, i))} : i \in st.dead \cap st.ready}
With(st, o, c) == [Do([st EXCEPT !.ch = c, !.used = {}, !.bad = FALSE, !.off = FALSE], o) EXCEPT !.no = @ + 1]
Clean(t) == [t EXCEPT !.ch = [x \in Shard |-> 1], !.used = {}, !.bad = FALSE, !.off = FALSE]
\* the outcomes of a step: one for every permitted choice of the hosts of shards allocated in it
Chs(st, o) == IF o.op \in {"realloc", "arrive", "reply", "crash"} THEN {[x \in Shard |-> 1]}
              ELSE IF o.op = "removed" THEN [Shard -> Node] ELSE {[x \in Shard |-> IF x = o.s THEN k ELSE 1] : k \in Node}
Raw(st, o) == {u \in {With(st, o, c) : c \in Chs(st, o)} : ~u.bad /\ \A x \in Shard \ u.used : u.ch[x] = 1}
Outs(st, o) == {Clean(t) : t \in Raw(st, o)}
Kept1(st, o) == {Clean(t) : t \in {u \in Raw(st, o) : ~u.off}}

Obs(st) == [alloc |-> st.alloc, ent |-> st.ent,
            msg |-> [m \in 1..Len(st.msg) |-> [h |-> st.msg[m].h, res |-> IF st.msg[m].i \in Alive(st) THEN st.msg[m].res ELSE "any"]]]
Alts(st, o) == {t.alloc : t \in UNION {Outs(st, p) : p \in {q \in Base(st) : q.op = o.op /\ (IF o.op = "removed" THEN q.i = o.i ELSE q = o)}}}

Init == s \in Inits /\ hist = <<>>
Next == \E o \in Base(s) : \E t \in Outs(s, o) : s' = t /\ UNCHANGED hist
Spec == Init /\ [][Next]_<<s, hist>>
InitQ == s \in Inits /\ hist = <<[op |-> "init", n |-> N, s |-> S, gates |-> [shard |-> "shard" \in Gates, up |-> "up" \in Gates, down |-> "down" \in Gates], obs |-> Obs(s)]>>
Kind(o) == IF o.op = "ctl" THEN LET c == Head(s.ctl[o.i][o.s]) IN [t |-> c.t, k |-> c.k] ELSE [t |-> ""]
NextQ == \E o \in Base(s) : \E t \in Kept1(s, o) : s' = t /\ hist' = Append(hist, (o @@ Kind(o)) @@ [alts |-> Alts(s, o), obs |-> Obs(s')])
SpecQ == InitQ /\ [][NextQ]_<<s, hist>>
Emit == PrintT(ToJson(hist'))
View == [s EXCEPT !.no = 0]
EmitEnd == (Len(hist) = SimLen \/ Base(s) = {}) => PrintT(ToJson(hist))

(* --------------------------------------------------------------------------------------------------------- properties *)
\* C03: no two nodes run the same entity, and the shard runs only where it is allocated or on its way from
OneHost == \A x \in Shard : Cardinality({n \in Alive(s) : s.ent[n][x] # "none"}) <= 1
OneShard == \A x \in Shard : Cardinality({n \in Alive(s) : s.sh[n][x] # "off"}) <= 1
\* C03: nothing under way means nothing is being moved
Busy(x) == \E n \in Alive(s) : s.ctl[n][x] # <<>> \/ s.sr[n][x] > 0 \/ s.sh[n][x] = "rec" \/ s.ent[n][x] \in {"starting", "stopping"}
Moved == \A x \in Shard : (s.mov[x] # 0 /\ s.dead \cap s.ready = {}) => Busy(x)
\* C04
Once == \A m \in 1..Len(s.msg) : Len(s.msg[m].h) <= 1 /\ (s.msg[m].res = "ok" => Len(s.msg[m].h) = 1)
Kept(m) == LET r == s.msg[m] IN r.st \in {"net", "reply", "done", "lost"} \/ \E n \in Alive(s) : \E q \in {s.pend[n][r.s], s.buf[n][r.s], s.box[n][r.s], s.late[n][r.s], s.ebuf[n][r.s]} : \E p \in 1..Len(q) : q[p] = m
NoneDropped == \A m \in 1..Len(s.msg) : Kept(m)
Still(x) == ~Busy(x) /\ s.mov[x] = 0 /\ s.dead \cap s.ready = {} /\ \A n \in Alive(s) : s.ar[n][x] = 0
NoHang == \A m \in 1..Len(s.msg) : Still(s.msg[m].s) => s.msg[m].st # "at"
\* requests fail only when they reach a node that does not run the shard or is stopping it
=============================================================================
