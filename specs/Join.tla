------------------------------- MODULE Join -------------------------------
(* Who knows whom.  Nodes start alone or join through the address of any member, one after the     *)
(* other or several at the same time; members shut down or crash.  Observed: which nodes every      *)
(* running member lists, under which address, in which state, how often it announced each of them  *)
(* as added, and whether a request to it is answered.                                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS N, Acts, MaxTogether, MaxGone, MaxOps
VARIABLES s, hist
SimLen == atoi(IOEnv.SIMLEN)
Node == 1..N

Live(st) == {n \in Node : st.st[n] = "up"}
Unused(st) == {n \in Node : st.st[n] = "new"}
\* nodes are interchangeable: they are taken in order
Take(st, k) == {n \in Unused(st) : Cardinality({m \in Unused(st) : m < n}) < k}
Seeds(st) == Live(st)

Ops(st) == IF st.ops >= MaxOps THEN {} ELSE
     (IF Live(st) = {} /\ st.ops = 0 THEN {[op |-> "start", n |-> 1, self |-> x] : x \in BOOLEAN} ELSE {})
  \union (IF Live(st) = {} THEN {} ELSE
          UNION {{[op |-> "join", who |-> [n \in Node |-> IF n \in Take(st, k) THEN f[n] ELSE 0]] : f \in [Take(st, k) -> Seeds(st)]}
                 : k \in 1..(IF Cardinality(Unused(st)) < MaxTogether THEN Cardinality(Unused(st)) ELSE MaxTogether)})
  \union {[op |-> a, n |-> n] : a \in Acts \cap {"shutdown", "crash"}, n \in {m \in Live(st) : Cardinality(Live(st)) > 1 /\ Cardinality({x \in Node : st.st[x] = "gone"}) < MaxGone}}

Apply(st0, o) ==
  LET st == [st0 EXCEPT !.ops = @ + 1]
  IN CASE o.op = "start" -> [st EXCEPT !.st[o.n] = "up", !.knows[o.n] = {o.n}, !.how = <<o>>]
       [] o.op = "join" ->
            LET new == {n \in Node : o.who[n] # 0}
                all == Live(st) \union new
            IN [st EXCEPT !.how = Append(@, o), !.st = [n \in Node |-> IF n \in new THEN "up" ELSE @[n]],
                          !.knows = [n \in Node |-> IF n \in all THEN @[n] \union all ELSE @[n]],
                          !.added = [n \in Node |-> [m \in Node |-> IF n \in all /\ m \in all /\ m # n /\ m \notin st.knows[n] THEN 1 ELSE @[n][m]]]]
       [] OTHER -> [st EXCEPT !.st[o.n] = "gone"]

\* a member that left may or may not be known to those that joined later
Obs(st) == [known |-> [n \in Node |-> [m \in Node |-> IF st.st[n] # "up" THEN "any" ELSE IF m \in st.knows[n] THEN (IF st.st[m] = "gone" THEN "Terminated" ELSE "Healthy")
                                                      ELSE IF st.st[m] = "gone" THEN "any" ELSE "absent"]],
            added |-> [n \in Node |-> [m \in Node |-> IF st.st[n] # "up" \/ (st.st[m] = "gone" /\ m \notin st.knows[n]) THEN "any" ELSE ToString(st.added[n][m])]],
            asked |-> [n \in Node |-> [m \in Node |-> IF n \in Live(st) /\ m \in Live(st) THEN "answered" ELSE "not asked"]]]

Init0 == [st |-> [n \in Node |-> "new"], knows |-> [n \in Node |-> {}], added |-> [n \in Node |-> [m \in Node |-> 0]], how |-> <<>>, ops |-> 0]
Init == s = Init0 /\ hist = <<>>
Next == (\E o \in Ops(s) : s' = Apply(s, o)) /\ UNCHANGED hist
Spec == Init /\ [][Next]_<<s, hist>>
InitQ == s = Init0 /\ hist = <<[op |-> "init", obs |-> Obs(s)]>>
NextQ == \E o \in Ops(s) : s' = Apply(s, o) /\ hist' = Append(hist, o @@ [obs |-> Obs(s')])
SpecQ == InitQ /\ [][NextQ]_<<s, hist>>
\* through whom the members joined tells states apart
View == [s EXCEPT !.ops = 0]
Emit == PrintT(ToJson(hist'))
EmitEnd == (Len(hist) = SimLen \/ Ops(s) = {}) => PrintT(ToJson(hist))

--------------------------------------------------------------------------
Everyone == \A n, m \in Live(s) : m \in s.knows[n]
OnceEach == \A n, m \in Node : s.added[n][m] <= 1 /\ (n \in Live(s) /\ n # m => (s.added[n][m] = 1 <=> m \in s.knows[n]))
NoneForgotten == [][\A n \in Node : s.knows[n] \subseteq s'.knows[n]]_<<s, hist>>
=============================================================================
