------------------------------- MODULE Worker -------------------------------
(* A pool of workers behind one dispatcher: rotation, one queue per worker, results.              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Sizes, MaxReqs
VARIABLES s, hist
SimLen == atoi(IOEnv.SIMLEN)

Init0 == [n |-> 0, given |-> <<>>, q |-> <<>>, busy |-> <<>>, res |-> <<>>, log |-> <<>>]
Begin(st, n) == [Init0 EXCEPT !.n = n, !.q = [w \in 1..n |-> <<>>], !.busy = [w \in 1..n |-> 0]]
\* workers are numbered in the order in which they are first used
Dispatch(st) == LET r == Len(st.res) + 1
                    w == ((r - 1) % st.n) + 1
                IN [st EXCEPT !.res = Append(@, "pending"), !.given = Append(@, w), !.q[w] = Append(@, r)]
CanTake(st, w) == st.busy[w] = 0 /\ st.q[w] # <<>>
Take(st, w) == [st EXCEPT !.busy[w] = Head(st.q[w]), !.q[w] = Tail(@), !.log = Append(@, <<w, Head(st.q[w])>>)]
Release(st, w) == [st EXCEPT !.busy[w] = 0, !.res[st.busy[w]] = "ok"]
RECURSIVE Quiesce(_)
Quiesce(st) == IF \E w \in 1..st.n : CanTake(st, w) THEN Quiesce(Take(st, CHOOSE w \in 1..st.n : CanTake(st, w))) ELSE st

Ops(st) == IF st.n = 0 THEN {[op |-> "pool", n |-> n] : n \in Sizes}
  ELSE {[op |-> "dispatch"] : x \in {y \in {1} : Len(st.res) < MaxReqs}}
       \union {[op |-> "release", w |-> w] : w \in {x \in 1..st.n : st.busy[x] # 0}}
Apply(st, o) == CASE o.op = "pool" -> Begin(st, o.n) [] o.op = "dispatch" -> Dispatch(st) [] o.op = "release" -> Release(st, o.w)
Obs(st) == [res |-> st.res, log |-> st.log]
Init == s = Init0 /\ hist = <<>>
Next == /\ \/ \E o \in Ops(s) : s' = Apply(s, o)
           \/ \E w \in 1..s.n : CanTake(s, w) /\ s' = Take(s, w)
        /\ UNCHANGED hist
Spec == Init /\ [][Next]_<<s, hist>>
NextQ == \E o \in Ops(s) : s' = Quiesce(Apply(s, o)) /\ hist' = Append(hist, o @@ [obs |-> Obs(s')])
SpecQ == Init /\ [][NextQ]_<<s, hist>>
Emit == PrintT(ToJson(hist'))
View == [s EXCEPT !.log = 0]
EmitEnd == (Len(hist) = SimLen \/ Ops(s) = {}) => PrintT(ToJson(hist))

OnceEach == \A r \in 1..Len(s.res) : Cardinality({i \in 1..Len(s.log) : s.log[i][2] = r}) <= 1
Own == \A i \in 1..Len(s.log) : s.given[s.log[i][2]] = s.log[i][1]
Given(w) == Cardinality({r \in 1..Len(s.given) : s.given[r] = w})
Even == \A v, w \in 1..s.n : Given(v) <= Given(w) + 1
OnlyOwnQueue == \A r \in 1..Len(s.res) : s.res[r] = "ok" => \E i \in 1..Len(s.log) : s.log[i][2] = r
=============================================================================
