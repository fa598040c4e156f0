------------------------------- MODULE Actor -------------------------------
(* The life of one actor: creation, start hook, mailbox, one-at-a-time handling, stop requests  *)
(* from outside, from a handler and from the start hook, stop hook, and what every caller gets.  *)
(* The state is one record s; the operators below are the transitions.  Two next-state relations *)
(* use them: Next interleaves the environment with the actor's own steps (exhaustively checked), *)
(* NextQ lets the actor run to quiescence after each environment step, and exports behaviours    *)
(* for replay against the implementation (paused virtual time gives the same quiescence there).  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS MaxMsgs,   \* messages sent in a behaviour
          Kinds,     \* message kinds in use
          Modes,     \* creation modes
          StartStops \* {FALSE} or BOOLEAN: may the start hook request a stop

VARIABLES s, hist

SimLen == atoi(IOEnv.SIMLEN)   \* length of random behaviours (simulation only)

Gated   == {"send", "notify", "selfstop", "deliver"}  \* the handler waits for a gate
Waiting == {"send", "fast", "exec", "stop", "selfstop", "status", "deliver"}  \* the sender waits
StopMsg == {"stop", "nstop"}

Init0 == [ph |-> "none", mode |-> "none", create |-> "none", startStop |-> FALSE,
          box |-> <<>>, kind |-> <<>>, busy |-> 0, stopq |-> FALSE, waiters |-> {},
          res |-> <<>>, log |-> <<>>]

Alive(st) == st.ph \in {"starting", "running"}

\* ---- the actor's own steps ------------------------------------------------
EnterStop(st) == [st EXCEPT !.ph = "stopHook", !.log = Append(@, <<"stopping", 0>>)]

AfterHandler(st) == IF st.stopq THEN EnterStop(st) ELSE st

CanTake(st) == st.ph = "running" /\ st.busy = 0 /\ st.box # <<>>

Take(st) ==
  LET m == Head(st.box)
      k == st.kind[m]
      t == [st EXCEPT !.box = Tail(@)]
  IN  CASE k = "selfstop" -> [t EXCEPT !.busy = m, !.stopq = TRUE, !.log = Append(@, <<"begin", m>>)]
        [] k \in Gated \ {"selfstop"} -> [t EXCEPT !.busy = m, !.log = Append(@, <<"begin", m>>)]
        [] k = "stop"   -> AfterHandler([t EXCEPT !.stopq = TRUE, !.waiters = @ \union {m}])
        [] k = "nstop"  -> AfterHandler([t EXCEPT !.stopq = TRUE])
        [] k = "status" -> AfterHandler([t EXCEPT !.res[m] = "Started"])
        [] OTHER -> AfterHandler([t EXCEPT !.log = Append(@, <<"run", m>>), !.res[m] = "ok"])

\* ---- environment steps ----------------------------------------------------
Create(st, mode) ==
  [st EXCEPT !.ph = "starting", !.mode = mode,
             !.create = IF mode = "deferred" THEN "ok" ELSE "pending",
             !.log = Append(@, <<"starting", 0>>)]

ReleaseStart(st, stop) ==
  LET t == [st EXCEPT !.log = Append(@, <<"started", 0>>), !.startStop = stop]
  IN IF stop THEN EnterStop(t)
     ELSE [t EXCEPT !.ph = "running", !.create = "ok"]

\* what the caller sees at once
Initial(st, k) ==
  IF st.ph = "dead" THEN "err"
  ELSE IF k \in Waiting THEN (IF st.ph = "stopHook" \/ st.stopq THEN "pending|err" ELSE "pending")
  ELSE IF st.ph = "stopHook" \/ st.stopq THEN "any" ELSE "ok"

Send(st, k) ==
  LET m == Len(st.kind) + 1
  IN [st EXCEPT !.kind = Append(@, k), !.res = Append(@, Initial(st, k)),
                !.box = IF st.ph = "dead" THEN @ ELSE Append(@, m)]

ReleaseHandler(st) ==
  LET m == st.busy IN
  AfterHandler([st EXCEPT !.busy = 0, !.log = Append(@, <<"end", m>>), !.res[m] = "ok"])

InSeq(q, x) == \E i \in 1..Len(q) : q[i] = x

ReleaseStop(st) ==
  [st EXCEPT !.ph = "dead", !.log = Append(@, <<"stopped", 0>>),
             !.create = IF @ = "pending" THEN "err" ELSE @,
             !.box = <<>>, !.waiters = {},
             !.res = [m \in 1..Len(st.res) |->
                 IF m \in st.waiters THEN "ok"
                 ELSE IF InSeq(st.box, m)
                      THEN (IF st.kind[m] = "stop" THEN "ok|err"
                            ELSE IF st.kind[m] \in Waiting THEN "err" ELSE "any")
                      ELSE st.res[m]]]

RECURSIVE Quiesce(_)
Quiesce(st) == IF CanTake(st) THEN Quiesce(Take(st)) ELSE st

\* While the actor is stopping or going to, a waiting sender may be told early that it failed.
Behind(st) == [st EXCEPT !.res = [m \in 1..Len(st.res) |->
                 IF (st.stopq \/ st.ph = "stopHook") /\ InSeq(st.box, m) /\ st.kind[m] \in Waiting
                 THEN "pending|err" ELSE st.res[m]]]

Obs(st) == [create |-> st.create, res |-> Behind(st).res, log |-> st.log]

\* ---- environment ops as records -------------------------------------------
Ops(st) ==
     {[op |-> "create", mode |-> mo] : mo \in {x \in Modes : st.ph = "none"}}
  \union {[op |-> "start", stop |-> b] : b \in {x \in StartStops : st.ph = "starting"}}
  \union {[op |-> "msg", kind |-> k] : k \in {x \in Kinds : st.ph # "none" /\ Len(st.kind) < MaxMsgs}}
  \union {[op |-> "release"] : x \in {1 : y \in {z \in {1} : st.busy # 0}}}
  \union {[op |-> "stopped"] : x \in {1 : y \in {z \in {1} : st.ph = "stopHook"}}}

Apply(st, o) ==
  CASE o.op = "create"  -> Create(st, o.mode)
    [] o.op = "start"   -> ReleaseStart(st, o.stop)
    [] o.op = "msg"     -> Send(st, o.kind)
    [] o.op = "release" -> ReleaseHandler(st)
    [] o.op = "stopped" -> ReleaseStop(st)

Init == s = Init0 /\ hist = <<>>

\* fine-grained: environment and actor interleave freely
Next == /\ \/ \E o \in Ops(s) : s' = Apply(s, o)
           \/ CanTake(s) /\ s' = Take(s)
        /\ UNCHANGED hist
Spec == Init /\ [][Next]_<<s, hist>>

\* quiescent: for replay
NextQ == \E o \in Ops(s) :
           /\ s' = Quiesce(Apply(s, o))
           /\ hist' = Append(hist, o @@ [obs |-> Obs(s')])
SpecQ == Init /\ [][NextQ]_<<s, hist>>

Emit == PrintT(ToJson(hist'))
View == [s EXCEPT !.log = 0, !.res = 0]
EmitEnd == (Len(hist) = SimLen \/ Ops(s) = {}) => PrintT(ToJson(hist))

\* ---- properties ------------------------------------------------------------
Idx(x) == {i \in 1..Len(s.log) : s.log[i] = x}
Pos(x) == CHOOSE i \in Idx(x) : TRUE
Handled(m) == Idx(<<"begin", m>>) \union Idx(<<"run", m>>)

\* A01: exactly once, in order, one at a time, own result
OnceEach   == \A m \in 1..Len(s.kind) : Cardinality(Handled(m)) <= 1 /\ Cardinality(Idx(<<"end", m>>)) <= 1
InOrder    == \A m, n \in 1..Len(s.kind) :
                 m < n /\ Handled(n) # {} /\ s.kind[m] \notin (StopMsg \union {"status"}) => Handled(m) # {}
                       /\ \A i \in Handled(m), j \in Handled(n) : i < j
OneAtATime == \A i \in 1..Len(s.log) : s.log[i][1] = "begin" /\ i < Len(s.log) => s.log[i + 1] = <<"end", s.log[i][2]>>
ResultOk   == \A m \in 1..Len(s.kind) : s.res[m] = "ok" /\ s.kind[m] \in (Waiting \ {"stop"}) =>
                 Handled(m) # {} /\ (s.kind[m] \in Gated => Idx(<<"end", m>>) # {})
NoLoss     == \A m \in 1..Len(s.kind) : Handled(m) = {} /\ s.kind[m] \notin (StopMsg \union {"status"}) /\ ~(s.ph \in {"stopHook", "dead"})
                 => InSeq(s.box, m)
\* A02: hooks bracket handling
Bracket    == /\ \A m \in 1..Len(s.kind) : \A i \in Handled(m) :
                    Idx(<<"started", 0>>) # {} /\ \A j \in Idx(<<"started", 0>>) : j < i
              /\ Cardinality(Idx(<<"stopping", 0>>)) <= 1 /\ Cardinality(Idx(<<"stopped", 0>>)) <= 1
              /\ \A j \in Idx(<<"stopping", 0>>) : \A i \in (j + 1)..Len(s.log) : s.log[i] = <<"stopped", 0>>
StopWaits  == \A m \in 1..Len(s.kind) : s.kind[m] = "stop" /\ s.res[m] = "ok" => s.ph = "dead"
NoHang     == s.ph = "dead" => \A m \in 1..Len(s.kind) : s.res[m] \notin {"pending", "pending|err"} \/ s.kind[m] \notin Waiting
CreateErr  == s.create = "err" => s.startStop /\ s.ph = "dead" /\ \A m \in 1..Len(s.kind) : Handled(m) = {}
=============================================================================
