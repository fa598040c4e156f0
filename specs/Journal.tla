------------------------------ MODULE Journal -------------------------------
(* Journal storage as its users rely on it: per key a sequence of numbered events and of numbered        *)
(* snapshots.  After every operation the answer to every possible read is compared with the             *)
(* implementation (in-memory and Redis).                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Keys, MaxSeq, MaxBatch, Gaps
VARIABLES s, hist
SimLen == atoi(IOEnv.SIMLEN)

Init0 == [k |-> [x \in Keys |-> [m |-> <<>>, sn |-> <<>>, last |-> 0]]]

WriteMsg(st, x, g, c) == LET j == st.k[x] IN
   [st EXCEPT !.k[x] = [j EXCEPT !.m = @ \o [i \in 1..c |-> j.last + g + i], !.last = @ + g + c]]
WriteSnap(st, x, g) == LET j == st.k[x] IN
   [st EXCEPT !.k[x] = [j EXCEPT !.sn = Append(@, j.last + g + 1), !.last = @ + g + 1]]
DelTo(st, x, to) == [st EXCEPT !.k[x].m = SelectSeq(@, LAMBDA q : q > to)]
DelAll(st, x) == [st EXCEPT !.k[x] = [m |-> <<>>, sn |-> <<>>, last |-> 0]]

Range(q) == {q[i] : i \in 1..Len(q)}
Room(st, n) == {x \in Keys : st.k[x].last + n <= MaxSeq}
Ops(st) ==
     {[op |-> "msg", key |-> x, gap |-> g, c |-> 1] : x \in Room(st, 2), g \in Gaps}
  \union {[op |-> "batch", key |-> x, gap |-> g, c |-> c] : x \in Room(st, MaxBatch + 1), g \in Gaps, c \in 1..MaxBatch}
  \union {[op |-> "snap", key |-> x, gap |-> g] : x \in Room(st, 2), g \in Gaps}
  \union UNION {{[op |-> "delto", key |-> x, to |-> q] : q \in Range(st.k[x].sn)} : x \in Keys}
  \union {[op |-> "delall", key |-> x] : x \in Keys}
Apply(st, o) == CASE o.op \in {"msg", "batch"} -> WriteMsg(st, o.key, o.gap, o.c)
                  [] o.op = "snap" -> WriteSnap(st, o.key, o.gap)
                  [] o.op = "delto" -> DelTo(st, o.key, o.to)
                  [] o.op = "delall" -> DelAll(st, o.key)

\* ---- reads --------------------------------------------------------------------
LatestSnap(j) == IF j.sn = <<>> THEN 0 ELSE j.sn[Len(j.sn)]
After(j, q)   == SelectSeq(j.m, LAMBDA e : e > q)
Between(j, a, b) == SelectSeq(j.m, LAMBDA e : e >= a /\ e <= b)
Points(j) == {0} \union Range(j.sn)
SortedPoints(j) == <<0>> \o j.sn
Hi(j) == j.last + 1
Obs(st) == [x \in Keys |-> LET j == st.k[x] IN
   [snap |-> LatestSnap(j),
    latest |-> [i \in 1..Len(SortedPoints(j)) |-> After(j, SortedPoints(j)[i])],
    points |-> SortedPoints(j),
    one |-> [q \in 1..Hi(j) |-> IF q \in Range(j.m) THEN q ELSE 0],
    range |-> [a \in 1..Hi(j) |-> [b \in 1..(Hi(j) - a + 1) |-> Between(j, a, a + b - 1)]]]]

\* ---- properties ------------------------------------------------------------------
Sorted(q) == \A i \in 1..(Len(q) - 1) : q[i] < q[i + 1]
Inv == \A x \in Keys : LET j == s.k[x] IN
   Sorted(j.m) /\ Sorted(j.sn) /\ Range(j.m) \intersect Range(j.sn) = {}
   /\ \A q \in Points(j) : \A i \in 1..Len(j.m) : j.m[i] > q <=> j.m[i] \in Range(After(j, q))
\* an operation on one key leaves the others alone
Isolated == [][\E x \in Keys : \A y \in Keys \ {x} : s'.k[y] = s.k[y]]_s

Init == s = Init0 /\ hist = <<>>
Next == \E o \in Ops(s) : s' = Apply(s, o) /\ UNCHANGED hist
NextQ == \E o \in Ops(s) : s' = Apply(s, o) /\ hist' = Append(hist, o @@ [obs |-> Obs(s')])
Spec  == Init /\ [][Next]_<<s, hist>>
SpecQ == Init /\ [][NextQ]_<<s, hist>>
Emit == PrintT(ToJson(hist'))
View == s
EmitEnd == (Len(hist) = SimLen \/ Ops(s) = {}) => PrintT(ToJson(hist))
=============================================================================
