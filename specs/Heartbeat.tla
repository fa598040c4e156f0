----------------------------- MODULE Heartbeat -----------------------------
(* How one node judges the members it knows from their pings, which of them it reports as the    *)
(* leader, and what it announces.  Nodes are numbered in the order of their ids; `start' gives    *)
(* the order of their start times (0: unknown, which sorts first).                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS N, Ranks, Mins, Singles, Pings, Acts, MaxOps
VARIABLES s, hist
SimLen == atoi(IOEnv.SIMLEN)
Node == 1..N

\* what a ping outcome says about the age of the last answer; "slow": answered just now, but late
PingAge(c) == IF c = "slow" THEN "fresh" ELSE c
Answer(c) == c \in {"fresh", "late", "old", "slow"}

Judge(prev, hb, c) ==
  CASE c = "none" -> IF prev = "Terminated" THEN "Terminated" ELSE "Joining"
    [] c = "fresh" -> "Healthy"
    [] c \in {"late", "slow"} -> "Unhealthy"
    [] c = "old" -> "Terminated"
    [] c = "disc" -> "Terminated"
    [] c = "timeout" -> IF hb \in {"none", "old"} THEN "Terminated" ELSE "Unhealthy"
    [] c = "err" -> IF prev = "Unhealthy" THEN "Terminated" ELSE "Unhealthy"

Older(st, a, b) == st.start[a] < st.start[b] \/ (st.start[a] = st.start[b] /\ a < b)
Healthy(st) == {n \in Node : st.reg[n] /\ st.st[n] = "Healthy"}
Oldest(st, S) == CHOOSE a \in S : \A b \in S \ {a} : Older(st, a, b)

Members(st) == [n \in Node |-> st.reg[n]]

Tick(st) ==
  LET hb == [n \in Node |-> IF st.reg[n] /\ n # st.me /\ Answer(st.ping[n]) THEN PingAge(st.ping[n]) ELSE st.hb[n]]
      stt == [n \in Node |-> IF ~st.reg[n] THEN st.st[n] ELSE IF n = st.me THEN "Healthy" ELSE Judge(st.st[n], hb[n], st.ping[n])]
      t == [st EXCEPT !.hb = hb, !.st = stt]
      h == Healthy(t)
      lead == Oldest(t, h)
      ups == ~st.up /\ Cardinality(h) >= st.min
      ev1 == IF ups THEN <<[e |-> "up", leader |-> lead, members |-> Members(t)]>> ELSE <<>>
      ev2 == IF lead # st.leader THEN <<[e |-> "leader", leader |-> lead]>> ELSE <<>>
  IN [t EXCEPT !.leader = lead, !.up = @ \/ ups, !.ev = ev1 \o ev2,
               !.woke = IF lead # st.leader THEN st.waiting ELSE 0, !.waiting = IF lead # st.leader THEN 0 ELSE @]

Ops(st) == IF st.ops >= MaxOps THEN {} ELSE
     {[op |-> "tick"]}
  \union {[op |-> "reg", n |-> n] : n \in {m \in Node : m # st.me /\ (~st.reg[m] \/ "rereg" \in Acts)}}
  \union {[op |-> "ping", n |-> n, c |-> c] : n \in {m \in Node : m # st.me /\ (st.reg[m] \/ "early" \in Acts)}, c \in Pings}
  \union {[op |-> "term", n |-> n] : n \in {m \in Node : "term" \in Acts /\ m # st.me}}
  \union (IF "wait" \in Acts /\ st.waiting < 2 THEN {[op |-> "wait"]} ELSE {})

Apply(st0, o) ==
  LET st == [st0 EXCEPT !.ev = <<>>, !.woke = 0, !.ops = @ + 1]
  IN CASE o.op = "tick" -> Tick(st)
       [] o.op = "reg" -> [st EXCEPT !.reg[o.n] = TRUE, !.st[o.n] = "Joining", !.hb[o.n] = "none"]
       [] o.op = "ping" -> [st EXCEPT !.ping[o.n] = o.c]
       [] o.op = "term" -> Tick([st EXCEPT !.ping[o.n] = "none", !.st[o.n] = IF st.reg[o.n] THEN "Terminated" ELSE @])
       [] o.op = "wait" -> [st EXCEPT !.waiting = @ + 1]

Obs(st) == [status |-> [n \in Node |-> IF st.reg[n] THEN st.st[n] ELSE "absent"],
            leader |-> st.leader, ev |-> st.ev, woke |-> st.woke]

Inits == {[me |-> me, start |-> start, min |-> min, reg |-> [n \in Node |-> n = me], st |-> [n \in Node |-> "Joining"],
           hb |-> [n \in Node |-> "none"], ping |-> [n \in Node |-> "none"], leader |-> IF single THEN me ELSE 0,
           up |-> FALSE, ev |-> <<>>, woke |-> 0, waiting |-> 0, ops |-> 0] :
          me \in Node, start \in [Node -> Ranks], min \in Mins, single \in Singles}

Init == s \in Inits /\ hist = <<>>
Next == (\E o \in Ops(s) : s' = Apply(s, o)) /\ UNCHANGED hist
Spec == Init /\ [][Next]_<<s, hist>>
InitQ == /\ s \in Inits
         /\ hist = <<[op |-> "init", me |-> s.me, start |-> s.start, min |-> s.min, single |-> s.leader # 0, obs |-> Obs(s)]>>
NextQ == \E o \in Ops(s) : s' = Apply(s, o) /\ hist' = Append(hist, o @@ [obs |-> Obs(s')])
SpecQ == InitQ /\ [][NextQ]_<<s, hist>>
Emit == PrintT(ToJson(hist'))
View == [s EXCEPT !.ops = 0, !.ev = <<>>, !.woke = 0]
EmitEnd == (Len(hist) = SimLen \/ Ops(s) = {}) => PrintT(ToJson(hist))

--------------------------------------------------------------------------
\* E01, said without reference to the algorithm
IsTick == s'.ev # s.ev \/ s'.st # s.st \/ s'.leader # s.leader
LeaderRule == [][s'.leader # s.leader => \A n \in Node : s'.reg[n] /\ s'.st[n] = "Healthy" /\ n # s'.leader => Older(s', s'.leader, n)]_<<s, hist>>
LeaderHealthy == [][s'.leader # s.leader => s'.leader \in Healthy(s')]_<<s, hist>>
Announced == [][s'.leader # s.leader <=> \E i \in 1..Len(s'.ev) : s'.ev[i] = [e |-> "leader", leader |-> s'.leader]]_<<s, hist>>
Upped == [][(\E i \in 1..Len(s'.ev) : s'.ev[i].e = "up") => ~s.up /\ s'.up /\ Cardinality(Healthy(s')) >= s'.min]_<<s, hist>>
Agree == \A o \in Ops(s) : o.op = "tick" => LET t == Tick(s) IN t.leader = Oldest(t, Healthy(t)) /\ Tick(t).leader = t.leader /\ Tick(t).ev = <<>>
\* E02
SelfHealthy == \A o \in Ops(s) : o.op \in {"tick", "term"} => Apply(s, o).st[s.me] = "Healthy"
NoneForgotten == [][\A n \in Node : s.reg[n] => s'.reg[n]]_<<s, hist>>
=============================================================================
