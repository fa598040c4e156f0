------------------------------- MODULE PubSub -------------------------------
(* Topics, their keys, and the actors subscribed to them on the nodes of a cluster.              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS N, K, Topics, Reaches, Acts, MaxPubs, MaxOps   \* K subscribers; Acts: {"unsub", "stop", "block", "burst"}
VARIABLES s, hist
SimLen == atoi(IOEnv.SIMLEN)
Sub == 1..K

Inits == {[at |-> at, alive |-> [a \in Sub |-> TRUE], subs |-> [a \in Sub |-> {}], busy |-> [a \in Sub |-> FALSE],
           box |-> [a \in Sub |-> <<>>], seen |-> [a \in Sub |-> <<>>], pubs |-> 0, ops |-> 0] : at \in [Sub -> 1..N]}

Idle(st, a) == st.alive[a] /\ ~st.busy[a]

\* who gets a message published on node n
Reach(st, n, t, r) == {a \in Sub : st.alive[a] /\ t \in st.subs[a] /\ (r = "cluster" \/ st.at[a] = n)}

Ops(st) == IF st.ops >= MaxOps THEN {} ELSE
     {[op |-> "sub", a |-> a, t |-> t] : a \in {b \in Sub : Idle(st, b)}, t \in Topics}
  \union {[op |-> "unsub", a |-> a, t |-> t] : a \in {b \in Sub : "unsub" \in Acts /\ st.subs[b] # {}}, t \in Topics}
  \union {[op |-> "stop", a |-> a] : a \in {b \in Sub : "stop" \in Acts /\ Idle(st, b)}}
  \union {[op |-> "block", a |-> a] : a \in {b \in Sub : "block" \in Acts /\ Idle(st, b)}}
  \union {[op |-> "unblock", a |-> a] : a \in {b \in Sub : st.alive[b] /\ st.busy[b]}}
  \union (IF st.pubs >= MaxPubs THEN {} ELSE
          {[op |-> "pub", n |-> n, t |-> t, r |-> r, c |-> c] : n \in 1..N, t \in Topics, r \in Reaches, c \in IF "burst" \in Acts THEN {1, 3} ELSE {1}})

Valid(st, o) == CASE o.op = "sub" -> o.t \notin st.subs[o.a]
                  [] o.op = "unsub" -> o.t \in st.subs[o.a]
                  [] o.op = "pub" -> o.c = 1 \/ o.r = "local"
                  [] OTHER -> TRUE

Numbers(st, c) == [i \in 1..c |-> st.pubs + i]
Apply(st0, o) ==
  LET st == [st0 EXCEPT !.ops = @ + 1]
  IN CASE o.op = "sub" -> [st EXCEPT !.subs[o.a] = @ \union {o.t}]
       [] o.op = "unsub" -> [st EXCEPT !.subs[o.a] = @ \ {o.t}]
       [] o.op = "stop" -> [st EXCEPT !.alive[o.a] = FALSE]
       [] o.op = "block" -> [st EXCEPT !.busy[o.a] = TRUE]
       [] o.op = "unblock" -> [st EXCEPT !.busy[o.a] = FALSE]
       [] o.op = "pub" -> [st EXCEPT !.pubs = @ + o.c,
                             !.box = [a \in Sub |-> IF a \in Reach(st, o.n, o.t, o.r)
                                                    THEN @[a] \o [i \in 1..o.c |-> <<o.t, st.pubs + i>>] ELSE @[a]]]
Drain(st) == [st EXCEPT !.seen = [a \in Sub |-> IF Idle(st, a) THEN st.seen[a] \o st.box[a] ELSE st.seen[a]],
                        !.box = [a \in Sub |-> IF Idle(st, a) THEN <<>> ELSE st.box[a]]]

Obs(st) == [seen |-> st.seen]

Init == s \in Inits /\ hist = <<>>
Next == (\E o \in Ops(s) : Valid(s, o) /\ s' = Drain(Apply(s, o))) /\ UNCHANGED hist
Spec == Init /\ [][Next]_<<s, hist>>
InitQ == s \in Inits /\ hist = <<[op |-> "init", at |-> s.at, obs |-> Obs(s)]>>
NextQ == \E o \in Ops(s) : Valid(s, o) /\ s' = Drain(Apply(s, o)) /\ hist' = Append(hist, o @@ [obs |-> Obs(s')])
SpecQ == InitQ /\ [][NextQ]_<<s, hist>>
Emit == PrintT(ToJson(hist'))
\* for coverage what was received so far does not matter, only the situation
View == [s EXCEPT !.ops = 0, !.seen = <<>>, !.pubs = 0, !.box = [a \in Sub |-> Len(s.box[a])]]
EmitEnd == (Len(hist) = SimLen \/ Ops(s) = {}) => PrintT(ToJson(hist))

Got(st, a) == {x \in {st.seen[a][i] : i \in 1..Len(st.seen[a])} \union {st.box[a][i] : i \in 1..Len(st.box[a])} : TRUE}
OnceEach == \A a \in Sub : LET q == s.seen[a] \o s.box[a] IN \A i, j \in 1..Len(q) : i < j => q[i][2] < q[j][2]
Delivered == [][\A o \in Ops(s) : (o.op = "pub" /\ Valid(s, o) /\ s' = Drain(Apply(s, o))) =>
                 \A a \in Sub : \A i \in 1..o.c : (<<o.t, s.pubs + i>> \in Got(s', a)) <=> (s.alive[a] /\ o.t \in s.subs[a] /\ (o.r = "cluster" \/ s.at[a] = o.n))]_<<s, hist>>
=============================================================================
