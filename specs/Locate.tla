------------------------------ MODULE Locate ------------------------------
(* Where the actors of a cluster are.  Members 1..N do not change; ids 1..I are created as         *)
(* tracked or anonymous actors on some member, or deployed on a chosen member from any member;     *)
(* after every step each member looks every id up and talks to what it found.                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS N, I, Acts, Recipes, MaxOps
VARIABLES s, hist
SimLen == atoi(IOEnv.SIMLEN)
Node == 1..N
Id == 1..I

\* what a deployment is asked to create: a recipe, one the factory refuses, one it cannot read, an actor type the target cannot create
Works(k) == k \in {"one", "two"}

\* an id whose actor was stopped may still be looked up to where it was, and is then only created anew
Ops(st) == IF st.ops >= MaxOps THEN {} ELSE
     {[op |-> "create", n |-> n, i |-> i] : n \in Node, i \in {j \in Id : st.at[j] = 0}}
  \union {[op |-> "anon", n |-> n, i |-> i] : n \in Node, i \in {j \in Id : "anon" \in Acts /\ st.at[j] = 0 /\ ~st.stale[j] /\ st.anon[j] = 0}}
  \union {[op |-> "deploy", f |-> f, n |-> n, i |-> i, k |-> k] : f \in Node, n \in Node, i \in {j \in Id : ~st.stale[j]}, k \in Recipes}
  \union {[op |-> "auto", f |-> f, n |-> n, i |-> i, k |-> k] : f \in Node, n \in Node, i \in {j \in Id : "auto" \in Acts /\ ~st.stale[j] /\ st.at[j] = 0 /\ st.anon[j] = 0}, k \in Recipes}
  \union {[op |-> "stop", i |-> i] : i \in {j \in Id : "stop" \in Acts /\ st.at[j] # 0}}

Place(st, n, i, v) == [st EXCEPT !.at[i] = n, !.val[i] = v, !.stale[i] = FALSE, !.res = "ok"]

Apply(st0, o) ==
  LET st == [st0 EXCEPT !.ops = @ + 1, !.res = ""]
  IN CASE o.op = "create" -> Place(st, o.n, o.i, "made")
       [] o.op = "anon" -> [st EXCEPT !.anon[o.i] = o.n, !.res = "ok"]
       [] o.op = "deploy" -> IF st.at[o.i] # 0 THEN [st EXCEPT !.res = "exists"]
                             ELSE IF Works(o.k) THEN Place(st, o.n, o.i, o.k) ELSE [st EXCEPT !.res = "failed"]
       [] o.op = "auto" -> IF Works(o.k) THEN Place(st, o.n, o.i, o.k) ELSE [st EXCEPT !.res = "failed"]
       [] o.op = "stop" -> [st EXCEPT !.at[o.i] = 0, !.stale[o.i] = TRUE, !.res = "ok"]

Running(st, i) == (IF st.at[i] # 0 THEN 1 ELSE 0) + (IF st.anon[i] # 0 THEN 1 ELSE 0)
\* from every member: where the id is said to be, and what the actor found answers: the node it runs on and what it was made of
Obs(st) == [res |-> st.res,
            loc |-> [i \in Id |-> [n \in Node |-> IF st.stale[i] THEN "any" ELSE ToString(st.at[i])]],
            who |-> [i \in Id |-> [n \in Node |-> IF st.at[i] = 0 THEN "nobody" ELSE st.val[i] \o "@" \o ToString(st.at[i])]],
            inst |-> [i \in Id |-> Running(st, i)]]

Init0 == [at |-> [i \in Id |-> 0], val |-> [i \in Id |-> ""], anon |-> [i \in Id |-> 0], stale |-> [i \in Id |-> FALSE], res |-> "", ops |-> 0]
Init == s = Init0 /\ hist = <<>>
Next == (\E o \in Ops(s) : s' = Apply(s, o)) /\ UNCHANGED hist
Spec == Init /\ [][Next]_<<s, hist>>
InitQ == s = Init0 /\ hist = <<[op |-> "init", obs |-> Obs(s)]>>
NextQ == \E o \in Ops(s) : s' = Apply(s, o) /\ hist' = Append(hist, o @@ [obs |-> Obs(s')])
SpecQ == InitQ /\ [][NextQ]_<<s, hist>>
Emit == PrintT(ToJson(hist'))
View == [s EXCEPT !.ops = 0, !.res = ""]
EmitEnd == (Len(hist) = SimLen \/ Ops(s) = {}) => PrintT(ToJson(hist))

--------------------------------------------------------------------------
\* every member gives the same answer, the place of the actor or nothing
Agreed == \A i \in Id : LET o == Obs(s) IN ~s.stale[i] => \A n \in Node : o.loc[i][n] = ToString(s.at[i])
\* an id is created once while it exists
Once == [][\A i \in Id : s.at[i] # 0 /\ s'.at[i] # 0 => s'.at[i] = s.at[i] /\ s'.val[i] = s.val[i]]_<<s, hist>>
Single == \A i \in Id : s.anon[i] = 0 => Running(s, i) <= 1
Refused == [][s'.res \in {"exists", "failed"} => [s' EXCEPT !.ops = 0, !.res = ""] = [s EXCEPT !.ops = 0, !.res = ""]]_<<s, hist>>
=============================================================================
