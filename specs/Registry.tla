------------------------------ MODULE Registry ------------------------------
(* The actor system's directory of tracked actors: creation under an id, lookup by id and type,  *)
(* stop, creation again under the same id, and shutdown of the whole system.  An id is taken     *)
(* again only after the actor that had it has stopped.                                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Ids, MaxActors, Kinds,  \* Kinds: subset of {"tracked", "deferred", "anon", "fail", "closer"}; a closer looks an actor up when it stops
          Works                   \* what a message makes an actor do meanwhile: subset of {"look", "make"}, an actor looked up or created
VARIABLES s, hist
SimLen == atoi(IOEnv.SIMLEN)
Types == {"P", "Q"}

\* a: per actor [id, ty, kind, ph]; ph in starting, running, busy (handling a message), hook, gone
\* pend: creation call per actor; stops: result of the stop call per actor
Init0 == [a |-> <<>>, create |-> <<>>, stop |-> <<>>, down |-> "none"]

N(st) == Len(st.a)
Live(st) == {i \in 1..N(st) : st.a[i].ph # "gone"}
Tracked(k) == k # "anon"

Holder(st, id) == {i \in Live(st) : st.a[i].id = id /\ Tracked(st.a[i].kind)}

Create(st, o) ==
  [st EXCEPT !.a = Append(@, [id |-> o.id, ty |-> o.ty, kind |-> o.kind, ph |-> "starting"]),
             !.create = Append(@, IF o.kind = "deferred" THEN "ok" ELSE "pending"),
             !.stop = Append(@, "none")]

\* the start hook of actor i is let go
Start(st, i) ==
  IF st.a[i].kind = "fail" THEN [st EXCEPT !.a[i].ph = "hook"]
  ELSE IF st.down = "pending" /\ Tracked(st.a[i].kind) THEN [st EXCEPT !.a[i].ph = "hook", !.create[i] = "ok"]
  ELSE [st EXCEPT !.a[i].ph = "running", !.create[i] = "ok"]

Stop(st, i) == [st EXCEPT !.a[i].ph = IF @ = "busy" THEN @ ELSE "hook",
                       !.stop[i] = IF st.a[i].ph = "busy" /\ st.down = "pending" /\ Tracked(st.a[i].kind) THEN "second" ELSE "pending"]

\* the message actor i is handling is done with
Go(st, i) == [st EXCEPT !.a[i].ph = IF st.stop[i] # "none" \/ (st.down = "pending" /\ Tracked(st.a[i].kind)) THEN "hook" ELSE "running"]

Finish(st) ==  \* shutdown returns once every tracked actor has stopped
  IF st.down = "pending" /\ \A i \in Live(st) : ~Tracked(st.a[i].kind) THEN [st EXCEPT !.down = "ok"] ELSE st

Release(st, i) ==
  Finish([st EXCEPT !.a[i].ph = "gone",
                    !.create[i] = IF @ = "pending" THEN "err" ELSE @,
                    !.stop[i] = CASE @ = "pending" -> "ok" [] @ = "second" -> "ok|err" [] OTHER -> @])

Shutdown(st) ==
  Finish([st EXCEPT !.down = "pending",
           !.a = [i \in 1..N(st) |-> IF Tracked(st.a[i].kind) /\ st.a[i].ph = "running" THEN [st.a[i] EXCEPT !.ph = "hook"] ELSE st.a[i]]])

Ops(st) ==
     {[op |-> "create", id |-> id, ty |-> ty, kind |-> k] :
         id \in {x \in Ids : Holder(st, x) = {} /\ N(st) < MaxActors /\ st.down = "none"}, ty \in Types, k \in Kinds}
  \union {[op |-> "start", i |-> i] : i \in {j \in Live(st) : st.a[j].ph = "starting"}}
  \union {[op |-> "stop", i |-> i] : i \in {j \in Live(st) : st.a[j].ph \in {"running", "busy"} /\ st.stop[j] = "none"}}
  \union {[op |-> "work", i |-> i, w |-> w] : i \in {j \in Live(st) : st.a[j].ph = "running"}, w \in Works}
  \union {[op |-> "go", i |-> i] : i \in {j \in Live(st) : st.a[j].ph = "busy"}}
  \union {[op |-> "release", i |-> i] : i \in {j \in Live(st) : st.a[j].ph = "hook"}}
  \union {[op |-> "shutdown"] : x \in {y \in {1} : st.down = "none" /\ N(st) > 0}}

Apply(st, o) ==
  CASE o.op = "create" -> Create(st, o)
    [] o.op = "start" -> Start(st, o.i)
    [] o.op = "stop" -> Stop(st, o.i)
    [] o.op = "work" -> [st EXCEPT !.a[o.i].ph = "busy"]
    [] o.op = "go" -> Go(st, o.i)
    [] o.op = "release" -> Release(st, o.i)
    [] o.op = "shutdown" -> Shutdown(st)

\* what a lookup of id as type ty gives: the actor's number, "stopping" for an actor that is busy or in its stop hook
Lookup(st, id, ty) ==
  LET h == Holder(st, id) IN
  IF st.down # "none" THEN "any"
  ELSE IF h = {} THEN "none"
  ELSE LET i == CHOOSE x \in h : TRUE IN
       IF st.a[i].kind = "fail" \/ st.a[i].ph = "starting" THEN (IF st.a[i].ty # ty THEN "none" ELSE "any")
       ELSE IF st.a[i].ty # ty THEN "none"
       ELSE IF st.a[i].ph \in {"hook", "busy"} THEN "stopping" ELSE ToString(i)

Obs(st) == [look |-> [id \in Ids |-> [ty \in Types |-> Lookup(st, id, ty)]],
            ph |-> [i \in 1..N(st) |-> st.a[i].ph], create |-> st.create, stop |-> [i \in 1..N(st) |-> IF st.stop[i] = "second" THEN "pending" ELSE st.stop[i]], down |-> st.down]

Init == s = Init0 /\ hist = <<>>
Next == \E o \in Ops(s) : s' = Apply(s, o) /\ UNCHANGED hist
Spec == Init /\ [][Next]_<<s, hist>>
NextQ == \E o \in Ops(s) : s' = Apply(s, o) /\ hist' = Append(hist, o @@ [obs |-> Obs(s')])
SpecQ == Init /\ [][NextQ]_<<s, hist>>
Emit == PrintT(ToJson(hist'))
View == [s EXCEPT !.create = 0, !.stop = [i \in 1..N(s) |-> s.a[i].ph = "busy" /\ @[i] # "none"]]
EmitEnd == (Len(hist) = SimLen \/ Ops(s) = {}) => PrintT(ToJson(hist))

Unique == \A id \in Ids : Cardinality(Holder(s, id)) <= 1
Found == \A i \in Live(s) : s.down = "none" /\ s.a[i].ph = "running" /\ Tracked(s.a[i].kind) => Lookup(s, s.a[i].id, s.a[i].ty) = ToString(i)
NotFound == \A id \in Ids, ty \in Types : \A i \in 1..N(s) :
   (s.a[i].ph = "gone" \/ ~Tracked(s.a[i].kind) \/ s.a[i].ty # ty) => Lookup(s, id, ty) # ToString(i)
DownMeans == s.down = "ok" => \A i \in Live(s) : ~Tracked(s.a[i].kind)
=============================================================================
