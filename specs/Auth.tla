------------------------------- MODULE Auth -------------------------------
(* Who a node serves.  Raw connections to a listening node, the first frame each of them sends,   *)
(* what it sends later, and which of it the node answers or acts upon.  A connection is served     *)
(* from the moment it identified itself with an acceptable token; nothing any other connection     *)
(* does, or fails to do, has any effect.                                                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS K, Modes, Firsts, Tails, Uses, MaxPeers, MaxOps
VARIABLES s, hist
SimLen == atoi(IOEnv.SIMLEN)
Conn == 1..K

\* "good": fresh and signed with the node's secret; the others carry a token that is not
Tokens == {"good", "badsig", "other", "expired", "notoken", "unsigned", "altered"}
Accepts(mode, f) == CASE f = "good" -> TRUE
                      [] mode = "none" -> f \in Tokens
                      [] mode = "forever" -> f = "expired"
                      [] OTHER -> FALSE

Reply(u) == CASE u = "ping" -> "pong" [] u = "hello" -> "handshake" [] OTHER -> "result"
Answered == {"ping", "msg", "create", "find", "hello"}

\* the effect of a frame on a served connection
Serve(st, c, u) ==
  CASE u \in Answered -> [st EXCEPT !.got[c] = Append(@, Reply(u)),
                                    !.done = IF u = "msg" THEN @ + 1 ELSE @,
                                    !.made = IF u = "create" THEN @ + 1 ELSE @]
    [] u = "note" -> [st EXCEPT !.done = @ + 1]
    [] OTHER -> [st EXCEPT !.st[c] = "loose", !.how[c] = <<u>>]       \* broke the protocol: its own service is not specified further

Ops(st) == IF st.ops >= MaxOps \/ st.down THEN {} ELSE
     {[op |-> "open", c |-> c] : c \in {d \in Conn : st.st[d] = "none" /\ \A e \in 1..d - 1 : st.st[e] # "none"}}
  \union {[op |-> "first", c |-> c, f |-> f, t |-> t] : c \in {d \in Conn : st.st[d] = "open"}, f \in Firsts, t \in Tails}
  \union {[op |-> "half", c |-> c] : c \in {d \in Conn : st.st[d] = "open" /\ "half" \in Uses}}
  \union {[op |-> "use", c |-> c, u |-> u] : c \in {d \in Conn : st.st[d] \in {"served", "refused"}}, u \in Uses \ {"half"}}
  \union {[op |-> "close", c |-> c] : c \in {d \in Conn : st.st[d] \notin {"none", "closed"}}}
  \union (IF st.peers < MaxPeers THEN {[op |-> "peer"]} ELSE {})
  \union {[op |-> "shutdown"]}                 \* which ends whatever its connections are doing

Apply(st0, o) ==
  LET st == [st0 EXCEPT !.ops = @ + 1]
  IN CASE o.op = "open" -> [st EXCEPT !.st[o.c] = "open"]
       [] o.op = "first" ->
            IF Accepts(st.mode, o.f)
            THEN LET t == [st EXCEPT !.st[o.c] = "served", !.got[o.c] = Append(@, "identity")]
                 IN IF o.t = "" THEN t ELSE Serve(t, o.c, o.t)
            ELSE [st EXCEPT !.st[o.c] = "refused", !.how[o.c] = <<o.f, o.t>>]
       [] o.op = "half" -> [st EXCEPT !.st[o.c] = "stuck"]
       [] o.op = "use" -> IF st.st[o.c] = "served" THEN Serve(st, o.c, o.u) ELSE st
       [] o.op = "close" -> [st EXCEPT !.st[o.c] = "closed"]
       [] o.op = "peer" -> [st EXCEPT !.peers = @ + 1, !.done = @ + 1]
       [] o.op = "shutdown" -> [st EXCEPT !.down = TRUE]

Obs(st) == [down |-> st.down,
            got |-> [c \in Conn |-> IF st.st[c] \in {"loose", "closed"} THEN "any" ELSE st.got[c]],
            done |-> st.done, made |-> st.made, members |-> IF st.down THEN 0 ELSE st.peers + 1]

Inits == {[mode |-> m, st |-> [c \in Conn |-> "none"], got |-> [c \in Conn |-> <<>>], how |-> [c \in Conn |-> <<>>], done |-> 0, made |-> 0, peers |-> 0, down |-> FALSE, ops |-> 0] : m \in Modes}
Init == s \in Inits /\ hist = <<>>
Next == (\E o \in Ops(s) : s' = Apply(s, o)) /\ UNCHANGED hist
Spec == Init /\ [][Next]_<<s, hist>>
InitQ == s \in Inits /\ hist = <<[op |-> "init", mode |-> s.mode, obs |-> Obs(s)]>>
NextQ == \E o \in Ops(s) : s' = Apply(s, o) /\ hist' = Append(hist, o @@ [obs |-> Obs(s')])
SpecQ == InitQ /\ [][NextQ]_<<s, hist>>
Emit == PrintT(ToJson(hist'))
\* what a bad connection did tells states apart: whatever it was, all that follows is tried after it
View == [mode |-> s.mode, st |-> s.st, how |-> s.how, peers |-> s.peers, down |-> s.down]
EmitEnd == (Len(hist) = SimLen \/ Ops(s) = {}) => PrintT(ToJson(hist))

--------------------------------------------------------------------------
\* no answer and no effect without an accepted token
Unserved == \A c \in Conn : s.got[c] # <<>> => s.got[c][1] = "identity"
NoEffect == [][(\E c \in Conn : s.st[c] \in {"open", "refused", "stuck"} /\ s'.st[c] \in {"refused", "stuck", "closed"} /\ s.st[c] # s'.st[c])
               => s'.done = s.done /\ s'.made = s.made /\ s'.peers = s.peers]_<<s, hist>>
\* whatever the others did, one more connection with an acceptable token is served
Open == \A o \in Ops(s) : o.op = "first" /\ o.f = "good" => Apply(s, o).st[o.c] \in {"served", "loose"}
\* refused is for good
Final == [][\A c \in Conn : s.st[c] \in {"refused", "stuck"} => s'.st[c] \in {"refused", "stuck", "closed"}]_<<s, hist>>
=============================================================================
