------------------------------- MODULE Timers -------------------------------
(* Periodic timers and delayed messages of one actor against discrete time.                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Periods, Delays, MaxTimers, MaxTime, Steps   \* Steps: sizes of time steps
VARIABLES s, hist
SimLen == atoi(IOEnv.SIMLEN)

\* timers: [kind, period, next, on, n]; kind "timer" or "once"; n deliveries so far
Init0 == [now |-> 0, alive |-> TRUE, t |-> <<>>]

StartTimer(st, p, immediate) ==
  [st EXCEPT !.t = Append(@, [kind |-> "timer", period |-> p, next |-> IF immediate THEN st.now ELSE st.now + p, on |-> st.alive, n |-> 0])]
Once(st, d) == [st EXCEPT !.t = Append(@, [kind |-> "once", period |-> d, next |-> st.now + d, on |-> TRUE, n |-> 0])]
Cancel(st, i) == [st EXCEPT !.t[i].on = FALSE]
StopActor(st) == [st EXCEPT !.alive = FALSE]

Due(st, i) == st.t[i].on /\ st.t[i].next <= st.now
Fire(st, i) ==
  LET r == st.t[i] IN
  IF ~st.alive THEN [st EXCEPT !.t[i].on = FALSE]
  ELSE IF r.kind = "once" THEN [st EXCEPT !.t[i].on = FALSE, !.t[i].n = @ + 1]
  ELSE [st EXCEPT !.t[i].n = @ + 1, !.t[i].next = @ + r.period]
RECURSIVE Quiesce(_)
Quiesce(st) == IF \E i \in 1..Len(st.t) : Due(st, i) THEN Quiesce(Fire(st, CHOOSE i \in 1..Len(st.t) : Due(st, i))) ELSE st

RECURSIVE Pass(_, _)
Pass(st, k) == IF k = 0 THEN st ELSE Pass(Quiesce([st EXCEPT !.now = @ + 1]), k - 1)

Ops(st) ==
     {[op |-> "timer", p |-> p, now |-> b] : p \in {x \in Periods : Len(st.t) < MaxTimers /\ st.alive}, b \in BOOLEAN}
  \union {[op |-> "once", d |-> d] : d \in {x \in Delays : Len(st.t) < MaxTimers /\ st.alive}}
  \union {[op |-> "cancel", i |-> i] : i \in {x \in 1..Len(st.t) : st.t[x].on}}
  \union {[op |-> "drop", i |-> i] : i \in {x \in 1..Len(st.t) : st.t[x].on /\ st.t[x].kind = "once"}}
  \union {[op |-> "stop"] : x \in {y \in {1} : st.alive /\ Len(st.t) > 0}}
  \union {[op |-> "pass", k |-> k] : k \in {x \in Steps : st.now + x <= MaxTime}}

Apply(st, o) ==
  CASE o.op = "timer" -> StartTimer(st, o.p, o.now)
    [] o.op = "once" -> Once(st, o.d)
    [] o.op = "cancel" -> Cancel(st, o.i)
    [] o.op = "drop" -> st
    [] o.op = "stop" -> StopActor(st)
    [] o.op = "pass" -> Pass(st, o.k)

Obs(st) == [n |-> [i \in 1..Len(st.t) |-> st.t[i].n]]

Init == s = Init0 /\ hist = <<>>
\* fine-grained: time moves one unit when nothing is due; a due timer may be cancelled first
Next == /\ \/ \E o \in Ops(s) : o.op \notin {"pass"} /\ s' = Apply(s, o)
           \/ \E i \in 1..Len(s.t) : Due(s, i) /\ s' = Fire(s, i)
           \/ s.now < MaxTime /\ (\A i \in 1..Len(s.t) : ~Due(s, i)) /\ s' = [s EXCEPT !.now = @ + 1]
        /\ UNCHANGED hist
Spec == Init /\ [][Next]_<<s, hist>>
NextQ == \E o \in Ops(s) : s' = Quiesce(Apply(s, o)) /\ hist' = Append(hist, o @@ [obs |-> Obs(s')])
SpecQ == Init /\ [][NextQ]_<<s, hist>>
Emit == PrintT(ToJson(hist'))
View == [s EXCEPT !.now = 0, !.t = [i \in 1..Len(s.t) |-> [kind |-> s.t[i].kind, period |-> s.t[i].period, on |-> s.t[i].on, wait |-> IF s.t[i].on THEN s.t[i].next - s.now ELSE 0, n |-> IF s.t[i].n > 2 THEN 2 ELSE s.t[i].n]]]
EmitEnd == (Len(hist) = SimLen \/ Ops(s) = {}) => PrintT(ToJson(hist))

OnceOnly == \A i \in 1..Len(s.t) : s.t[i].kind = "once" => s.t[i].n <= 1
NotEarly == [][\A i \in 1..Len(s.t) : s'.t[i].n > s.t[i].n => s.t[i].next <= s.now /\ s.t[i].on]_<<s, hist>>
NoneAfter == [][\A i \in 1..Len(s.t) : ~s.t[i].on \/ ~s.alive => s'.t[i].n = s.t[i].n]_<<s, hist>>
Punctual == \A i \in 1..Len(s.t) : s.t[i].on /\ s.alive => s.t[i].next >= s.now \/ Due(s, i)
=============================================================================
