-------------------------------- MODULE Rpc --------------------------------
(* Requests from one node to actors on another: what the actor does with them, what comes back.   *)
(* K actors, actor a on node at[a]; each handles one message at a time.                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS N, K, Kinds, MaxReqs, WithStop
VARIABLES s, hist
SimLen == atoi(IOEnv.SIMLEN)
Act == 1..K

\* kinds that reach the mailbox of the actor
Boxed == {"hold", "fast", "note", "badres", "badreply"}
\* the outcome of the others, wherever they fail
Early(k) == CASE k = "unwrap" -> "Serialisation" [] k = "badmsg" -> "Deserialisation" [] k = "local" -> "NotSupported"
              [] k = "remote" -> "NotSupported" [] k = "missing" -> "NotFound" [] k = "wrong" -> "NotFound" [] k = "notemissing" -> "ok"
Late(k, i) == CASE k \in {"hold", "fast"} -> ToString(i) [] k = "badres" -> "Serialisation" [] k = "badreply" -> "Deserialisation" [] k = "note" -> "ok"

Inits == {[at |-> at, box |-> [a \in Act |-> <<>>], busy |-> [a \in Act |-> 0], up |-> [a \in Act |-> TRUE], done |-> [a \in Act |-> <<>>],
           req |-> <<>>] : at \in [Act -> 1..N]}

Ops(st) ==
     (IF Len(st.req) >= MaxReqs THEN {} ELSE
        {[op |-> "req", n |-> n, a |-> a, k |-> k] : n \in 1..N, a \in Act, k \in Kinds})
  \union {[op |-> "release", a |-> a] : a \in {b \in Act : st.busy[b] # 0}}
  \union {[op |-> "stop", a |-> a] : a \in {b \in Act : WithStop /\ st.up[b] /\ ~(\E i \in 1..Len(st.box[b]) : st.box[b][i] = 0)}}

\* Requests of one node are not ordered among each other on the way, nor with a stop: the schedules replayed have at most one
\* request waiting in a mailbox, or any number behind the stop.  (Next has no such restriction.)
Settled(st, o) == CASE o.op = "req" -> IF o.k \notin Boxed \/ st.box[o.a] = <<>> THEN TRUE ELSE st.box[o.a][1] = 0
                    [] o.op = "stop" -> st.box[o.a] = <<>>
                    [] OTHER -> TRUE
Valid(st, o) == o.op = "req" => o.n # st.at[o.a]

Fail(st, i, r) == [st EXCEPT !.req[i].res = r]
Apply(st, o) ==
  CASE o.op = "req" ->
         LET i == Len(st.req) + 1
             t == [st EXCEPT !.req = Append(@, [from |-> o.n, a |-> o.a, k |-> o.k, res |-> IF o.k = "note" THEN "ok" ELSE "pending"])]
         IN IF o.k \notin Boxed
            THEN Fail(t, i, IF ~st.up[o.a] /\ o.k = "badmsg" THEN "NotFound" ELSE Early(o.k))
            ELSE IF st.up[o.a] THEN [t EXCEPT !.box[o.a] = Append(@, i)]
                 ELSE IF o.k = "note" THEN t ELSE Fail(t, i, "NotFound")
    [] o.op = "release" ->
         LET i == st.busy[o.a] IN [st EXCEPT !.busy[o.a] = 0, !.req[i].res = Late(st.req[i].k, i)]
    [] o.op = "stop" -> [st EXCEPT !.box[o.a] = Append(@, 0)]

CanTake(st, a) == st.up[a] /\ st.busy[a] = 0 /\ st.box[a] # <<>>
Take(st, a) ==
  LET i == Head(st.box[a])
      t == [st EXCEPT !.box[a] = Tail(@)]
  IN IF i = 0   \* stop: whatever is behind it is never handled, waiting senders get an error
     THEN [t EXCEPT !.up[a] = FALSE, !.box[a] = <<>>,
                    !.req = [j \in 1..Len(st.req) |-> IF (\E q \in 1..Len(t.box[a]) : t.box[a][q] = j) /\ st.req[j].k # "note"
                                                      THEN [st.req[j] EXCEPT !.res = "closed|NotFound"] ELSE st.req[j]]]
     ELSE LET h == [t EXCEPT !.done[a] = Append(@, i)]
          IN IF st.req[i].k = "hold" THEN [h EXCEPT !.busy[a] = i] ELSE [h EXCEPT !.req[i].res = Late(st.req[i].k, i)]
RECURSIVE Quiesce(_)
Quiesce(st) == IF \E a \in Act : CanTake(st, a) THEN Quiesce(Take(st, CHOOSE a \in Act : CanTake(st, a))) ELSE st

Pending(st, n) == Cardinality({i \in 1..Len(st.req) : st.req[i].from = n /\ st.req[i].res = "pending"})
Obs(st) == [res |-> [i \in 1..Len(st.req) |-> st.req[i].res], done |-> st.done, inflight |-> [n \in 1..N |-> Pending(st, n)]]

Init == s \in Inits /\ hist = <<>>
Next == /\ \/ \E o \in Ops(s) : Valid(s, o) /\ s' = Apply(s, o)
           \/ \E a \in Act : CanTake(s, a) /\ s' = Take(s, a)
        /\ UNCHANGED hist
Spec == Init /\ [][Next]_<<s, hist>>
InitQ == s \in Inits /\ hist = <<[op |-> "init", at |-> s.at, obs |-> Obs(s)]>>
NextQ == \E o \in Ops(s) : Valid(s, o) /\ Settled(s, o) /\ s' = Quiesce(Apply(s, o)) /\ hist' = Append(hist, o @@ [obs |-> Obs(s')])
SpecQ == InitQ /\ [][NextQ]_<<s, hist>>
Emit == PrintT(ToJson(hist'))
View == [s EXCEPT !.done = <<>>]
EmitEnd == (Len(hist) = SimLen \/ Ops(s) = {}) => PrintT(ToJson(hist))

Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
OnceEach == \A i \in 1..Len(s.req) : /\ Count(s.done[s.req[i].a], i) <= 1
                                     /\ \A a \in Act \ {s.req[i].a} : Count(s.done[a], i) = 0
Own == \A i \in 1..Len(s.req) : s.req[i].k \in {"hold", "fast"} /\ s.req[i].res \notin {"pending", "closed|NotFound", "NotFound"} => s.req[i].res = ToString(i) /\ Count(s.done[s.req[i].a], i) = 1
NoHang == \A i \in 1..Len(s.req) : s.req[i].res = "pending" => s.busy[s.req[i].a] = i \/ \E j \in 1..Len(s.box[s.req[i].a]) : s.box[s.req[i].a][j] = i
\* an answer, once given, does not change
Final == [][\A i \in 1..Len(s.req) : s.req[i].res # "pending" => s'.req[i].res = s.req[i].res]_<<s, hist>>
=============================================================================
