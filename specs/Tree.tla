-------------------------------- MODULE Tree --------------------------------
(* Supervision: spawning (waiting, deferred, failing) and attaching children, stopping any        *)
(* member, the cascade to the children, and the notices to the parents.                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Names, MaxActors, Modes   \* Modes: subset of {"await", "deferred", "fail", "attach"}
VARIABLES s, hist
SimLen == atoi(IOEnv.SIMLEN)

\* per actor: name, parent (0: none or attached), ph in starting, running, hook, done, gone
\*   done: stop hook over, waiting for the children; gone: children over too, parent told
Root == [name |-> "root", par |-> 0, ph |-> "running", stopq |-> FALSE]
Init0 == [a |-> <<Root>>, kids |-> <<{}>>, heard |-> <<<<>>>>, box |-> <<<<>>>>, stop |-> <<"none">>, res |-> <<>>]

N(st) == Len(st.a)
Over(p) == p \in {"done", "gone"}
Taken(st, p, n) == \E k \in st.kids[p] : st.a[k].name = n

New(st, rec) == [st EXCEPT !.a = Append(@, rec), !.kids = Append(@, {}), !.heard = Append(@, <<>>), !.box = Append(@, <<>>), !.stop = Append(@, "none")]

Spawn(st, p, n, mode) ==
  LET i == N(st) + 1
      R(r) == [st EXCEPT !.res = Append(@, r)]
  IN IF Taken(st, p, n) THEN R("exists")
     ELSE CASE mode = "attach" -> [New(R("ok"), [name |-> n, par |-> 0, ph |-> "running", stopq |-> FALSE]) EXCEPT !.kids[p] = @ \union {i}]
            [] mode = "await" -> [New(R("ok"), [name |-> n, par |-> p, ph |-> "running", stopq |-> FALSE]) EXCEPT !.kids[p] = @ \union {i}]
            [] mode = "deferred" -> [New(R("ok"), [name |-> n, par |-> p, ph |-> "starting", stopq |-> FALSE]) EXCEPT !.kids[p] = @ \union {i}]
            [] mode = "fail" -> [New(R("err"), [name |-> n, par |-> p, ph |-> "gone", stopq |-> FALSE]) EXCEPT !.kids[p] = @ \union {i}, !.box[p] = Append(@, i)]

AskStop(st, i) ==
  CASE st.a[i].ph = "running" -> [st EXCEPT !.a[i].ph = "hook"]
    [] st.a[i].ph = "starting" -> [st EXCEPT !.a[i].stopq = TRUE]
    [] OTHER -> st

Started(st, i) == [st EXCEPT !.a[i].ph = IF st.a[i].stopq THEN "hook" ELSE "running"]

RECURSIVE AskAll(_, _)
AskAll(st, q) == IF q = {} THEN st ELSE LET i == CHOOSE x \in q : TRUE IN AskAll(AskStop(st, i), q \ {i})

\* the stop hook of i is over: the caller of stop is answered, the children are asked to stop
HookOver(st, i) ==
  AskAll([st EXCEPT !.a[i].ph = "done", !.stop[i] = IF @ = "pending" THEN "ok" ELSE @], st.kids[i])

\* ---- internal steps
CanGo(st, i) == st.a[i].ph = "done" /\ \A k \in st.kids[i] : Over(st.a[k].ph)
Go(st, i) == LET p == st.a[i].par IN
  [st EXCEPT !.a[i].ph = "gone", !.box = IF p # 0 /\ ~Over(st.a[p].ph) THEN [@ EXCEPT ![p] = Append(@, i)] ELSE @]
CanHear(st, p) == st.a[p].ph = "running" /\ st.box[p] # <<>>
Hear(st, p) == LET i == Head(st.box[p]) IN
  [st EXCEPT !.box[p] = Tail(@), !.kids[p] = @ \ {i}, !.heard[p] = Append(@, st.a[i].name)]

RECURSIVE Quiesce(_)
Quiesce(st) ==
  IF \E i \in 1..N(st) : CanGo(st, i) THEN Quiesce(Go(st, CHOOSE i \in 1..N(st) : CanGo(st, i)))
  ELSE IF \E i \in 1..N(st) : CanHear(st, i) THEN Quiesce(Hear(st, CHOOSE i \in 1..N(st) : CanHear(st, i)))
  ELSE st

IsKid(st, i) == \E p \in 1..N(st) : i \in st.kids[p]
Attached(st, i) == i # 1 /\ st.a[i].par = 0
Ops(st) ==
     {[op |-> "spawn", p |-> p, name |-> n, mode |-> m] :
        p \in {x \in 1..N(st) : st.a[x].ph = "running" /\ N(st) < MaxActors /\ Len(st.res) < MaxActors + 1}, n \in Names, m \in Modes}
  \union {[op |-> "stop", i |-> i] : i \in {x \in 1..N(st) : st.a[x].ph \in {"running", "starting"} /\ ~st.a[x].stopq /\ ~Attached(st, x) /\ st.stop[x] = "none"}}
  \union {[op |-> "started", i |-> i] : i \in {x \in 1..N(st) : st.a[x].ph = "starting"}}
  \union {[op |-> "release", i |-> i] : i \in {x \in 1..N(st) : st.a[x].ph = "hook"}}

\* attaching under a name in use replaces the entry: not a use the property speaks about
Sane(st, o) == o.op = "spawn" /\ o.mode = "attach" => ~Taken(st, o.p, o.name)

Apply(st, o) ==
  CASE o.op = "spawn" -> Spawn(st, o.p, o.name, o.mode)
    [] o.op = "stop" -> AskStop([st EXCEPT !.stop[o.i] = "pending"], o.i)
    [] o.op = "started" -> Started(st, o.i)
    [] o.op = "release" -> HookOver(st, o.i)

Shown(p) == IF Over(p) THEN "stopped" ELSE p
Obs(st) == [ph |-> [i \in 1..N(st) |-> Shown(st.a[i].ph)],
            kids |-> [i \in 1..N(st) |-> IF st.a[i].ph = "running" THEN ToJson([n \in Names |-> Taken(st, i, n)]) ELSE "-"],
            heard |-> st.heard, stop |-> st.stop, res |-> st.res]

Init == s = Init0 /\ hist = <<>>
Next == /\ \/ \E o \in Ops(s) : Sane(s, o) /\ s' = Apply(s, o)
           \/ \E i \in 1..N(s) : CanGo(s, i) /\ s' = Go(s, i)
           \/ \E i \in 1..N(s) : CanHear(s, i) /\ s' = Hear(s, i)
        /\ UNCHANGED hist
Spec == Init /\ [][Next]_<<s, hist>>
NextQ == \E o \in Ops(s) : Sane(s, o) /\ s' = Quiesce(Apply(s, o)) /\ hist' = Append(hist, o @@ [obs |-> Obs(s')])
SpecQ == Init /\ [][NextQ]_<<s, hist>>
Emit == PrintT(ToJson(hist'))
View == [s EXCEPT !.res = 0, !.stop = 0]
EmitEnd == (Len(hist) = SimLen \/ Ops(s) = {}) => PrintT(ToJson(hist))

UniqueLive == \A p \in 1..N(s) : \A k, l \in s.kids[p] : k # l => s.a[k].name # s.a[l].name
\* a gone actor's children have all stopped
KidsFirst == \A i \in 1..N(s) : s.a[i].ph = "gone" => \A k \in 1..N(s) : s.a[k].par = i => Over(s.a[k].ph)
\* the parent is told of a child that is gone, and of each one once
ToldGone == \A p \in 1..N(s) : \A j \in 1..Len(s.box[p]) : s.a[s.box[p][j]].ph = "gone"
ToldOnce == \A p \in 1..N(s) : Len(s.heard[p]) + Len(s.box[p]) <= Cardinality({k \in 1..N(s) : s.a[k].par = p /\ s.a[k].ph = "gone"})
\* a quiet running parent lists exactly its children that are not gone
Listed == \A p \in 1..N(s) : s.a[p].ph = "running" /\ s.box[p] = <<>> =>
             /\ {k \in s.kids[p] : s.a[k].par = p} = {k \in 1..N(s) : s.a[k].par = p /\ s.a[k].ph # "gone"}
             /\ Len(s.heard[p]) = Cardinality({k \in 1..N(s) : s.a[k].par = p /\ s.a[k].ph = "gone"})
=============================================================================
