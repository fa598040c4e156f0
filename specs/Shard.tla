------------------------------- MODULE Shard -------------------------------
(* The entities of one shard: started on demand by the first request that carries a recipe, kept in the journal, answered once      *)
(* started, and started again whenever the shard is - because it was moved or because the node came back with its journal.         *)
(* Requests come from the node of the shard and from another node ("far").                                                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS K, MaxMsgs, MaxMoves, MaxCrash, MaxQuit, Froms, MaxOps
VARIABLES s, hist
SimLen == atoi(IOEnv.SIMLEN)
Ent == 1..K
NoRec == 99
Bad(k) == k                        \* a recipe no entity can be made of
Recs(k) == {NoRec, Bad(k), 41, 42}

\* est: none, starting, running, ended (it stopped by itself);  sh: off, up, stopping
Fresh == [sh |-> "off", est |-> [k \in Ent |-> "none"], rec |-> [k \in Ent |-> NoRec], buf |-> [k \in Ent |-> <<>>],
          jr |-> [k \in Ent |-> NoRec], cnt |-> [k \in Ent |-> 0], msg |-> <<>>, nm |-> 0, nc |-> 0, nq |-> 0, no |-> 0]

Done(st, m, r) == [st EXCEPT !.msg[m].res = r]
RECURSIVE DoneAll(_, _, _)
DoneAll(st, q, r) == IF q = <<>> THEN st ELSE DoneAll(Done(st, Head(q), r), Tail(q), r)
Answer(st, k) == IF st.rec[k] = 41 THEN "ok41" ELSE "ok42"
IsBad(k, r) == r = Bad(k)
\* an instance exists from the start of its start hook; a recipe it cannot be made of never gives one
Begin(st, k, r) == [st EXCEPT !.est[k] = "starting", !.rec[k] = r, !.cnt[k] = @ + (IF IsBad(k, r) THEN 0 ELSE 1)]
Handle(st, k, m) == Done([st EXCEPT !.msg[m].h = @ + 1], m, Answer(st, k))
RECURSIVE HandleAll(_, _, _)
HandleAll(st, k, q) == IF q = <<>> THEN st ELSE HandleAll(Handle(st, k, Head(q)), k, Tail(q))

Request(st, k, from, odd, r) ==
  LET m == Len(st.msg) + 1
      a == [st EXCEPT !.sh = "up", !.msg = Append(@, [res |-> "pending", h |-> 0])]
  IN IF odd THEN Done(a, m, "NotSupported")
     ELSE CASE st.est[k] = "none" -> IF r = NoRec THEN Done(a, m, "NotFound") ELSE Begin([a EXCEPT !.jr[k] = r, !.buf[k] = <<m>>], k, r)
            [] st.est[k] = "starting" -> [a EXCEPT !.buf[k] = Append(@, m)]
            [] st.est[k] = "running" -> Handle(a, k, m)
            [] st.est[k] = "ended" -> Done(a, m, "closed")

\* every entity of the journal is started again
RECURSIVE Recover(_, _)
Recover(st, S) == IF S = {} THEN st ELSE LET k == CHOOSE x \in S : TRUE IN Recover(IF st.jr[k] = NoRec THEN st ELSE Begin(st, k, st.jr[k]), S \ {k})
RECURSIVE DropAll(_, _)
DropAll(st, S) == IF S = {} THEN st ELSE LET k == CHOOSE x \in S : TRUE IN DropAll([DoneAll(st, st.buf[k], "closed") EXCEPT !.buf[k] = <<>>], S \ {k})
Restart(st) == Recover([DropAll(st, Ent) EXCEPT !.sh = "up", !.est = [k \in Ent |-> "none"], !.rec = [k \in Ent |-> NoRec]], Ent)
Starting(st) == {k \in Ent : st.est[k] = "starting"}
Move(st) == LET a == [st EXCEPT !.nm = @ + 1, !.sh = "stopping", !.est = [k \in Ent |-> IF @[k] = "starting" THEN "starting" ELSE "none"]]
            IN IF Starting(a) = {} THEN Restart(a) ELSE a
Up(st, k) ==
  IF st.sh = "stopping" THEN LET a == [st EXCEPT !.est[k] = "none"] IN IF Starting(a) = {} THEN Restart(a) ELSE a
  ELSE IF IsBad(k, st.rec[k]) THEN [DoneAll(st, st.buf[k], "error") EXCEPT !.est[k] = "none", !.rec[k] = NoRec, !.buf[k] = <<>>]
  ELSE HandleAll([st EXCEPT !.est[k] = "running", !.buf[k] = <<>>], k, st.buf[k])
Lost(st) == [m \in 1..Len(st.msg) |-> IF st.msg[m].res = "pending" THEN [st.msg[m] EXCEPT !.res = "any"] ELSE st.msg[m]]
Crash(st) == LET a == [st EXCEPT !.nc = @ + 1, !.msg = Lost(st), !.buf = [k \in Ent |-> <<>>], !.est = [k \in Ent |-> "none"], !.rec = [k \in Ent |-> NoRec]]
             IN IF st.sh = "off" THEN a ELSE Recover([a EXCEPT !.sh = "up"], Ent)

Do(st, o) ==
  CASE o.op = "send" -> Request(st, o.k, o.from, o.odd, o.r)
    [] o.op = "up" -> Up(st, o.k)
    [] o.op = "move" -> Move(st)
    [] o.op = "quit" -> [st EXCEPT !.est[o.k] = "ended", !.nq = @ + 1]
    [] o.op = "crash" -> Crash(st)
Apply(st, o) == [Do(st, o) EXCEPT !.no = @ + 1]
Ops(st) == IF st.no >= MaxOps THEN {} ELSE
     (IF Len(st.msg) >= MaxMsgs \/ st.sh = "stopping" THEN {} ELSE
        UNION {{[op |-> "send", k |-> k, from |-> f, odd |-> FALSE, r |-> r] : f \in Froms, r \in Recs(k)} : k \in Ent}
        \union {[op |-> "send", k |-> k, from |-> f, odd |-> TRUE, r |-> 41] : k \in Ent, f \in Froms})
  \union {[op |-> "up", k |-> k] : k \in Starting(st)}
  \union (IF st.nm >= MaxMoves \/ st.sh # "up" THEN {} ELSE {[op |-> "move"]})
  \union (IF st.nq >= MaxQuit \/ st.sh # "up" THEN {} ELSE {[op |-> "quit", k |-> k] : k \in {x \in Ent : st.est[x] = "running"}})
  \union (IF st.nc >= MaxCrash \/ st.sh = "stopping" THEN {} ELSE {[op |-> "crash"]})

Shown(v) == IF v = "ended" THEN "none" ELSE v
\* an instance that cannot be made does not show
Obs(st) == [est |-> [k \in Ent |-> IF st.est[k] = "starting" /\ IsBad(k, st.rec[k]) THEN "none" ELSE Shown(st.est[k])],
            rec |-> [k \in Ent |-> IF Shown(st.est[k]) = "none" \/ IsBad(k, st.rec[k]) THEN NoRec ELSE st.rec[k]],
            cnt |-> st.cnt, msg |-> [m \in 1..Len(st.msg) |-> [res |-> st.msg[m].res, h |-> st.msg[m].h]]]
Init == s = Fresh /\ hist = <<>>
Next == \E o \in Ops(s) : s' = Apply(s, o) /\ UNCHANGED hist
Spec == Init /\ [][Next]_<<s, hist>>
InitQ == s = Fresh /\ hist = <<[op |-> "init", k |-> K, obs |-> Obs(s)]>>
NextQ == \E o \in Ops(s) : s' = Apply(s, o) /\ hist' = Append(hist, o @@ [obs |-> Obs(s')])
SpecQ == InitQ /\ [][NextQ]_<<s, hist>>
Emit == PrintT(ToJson(hist'))
View == [s EXCEPT !.no = 0]
EmitEnd == (Len(hist) = SimLen \/ Ops(s) = {}) => PrintT(ToJson(hist))

(* ------------------------------------------------------------------------------------------------------- properties *)
\* C05: a running entity has the recipe of the journal; a request is answered once or waits for its entity to start
FromJournal == \A k \in Ent : s.est[k] \in {"starting", "running"} /\ s.sh = "up" => s.rec[k] = s.jr[k]
Answered == \A m \in 1..Len(s.msg) : /\ s.msg[m].h <= 1
                                     /\ s.msg[m].res \in {"ok41", "ok42"} <=> s.msg[m].h = 1
                                     /\ s.msg[m].res = "pending" => \E k \in Ent : s.est[k] \in {"starting", "none"} /\ \E i \in 1..Len(s.buf[k]) : s.buf[k][i] = m
NoneWaits == s.sh = "up" => \A k \in Ent : s.buf[k] # <<>> => s.est[k] = "starting"
\* no second start while the shard runs, unless it failed to start; after a restart every entity of the journal is started
OneStart == [][\A k \in Ent : s'.cnt[k] > s.cnt[k] => (s.est[k] = "none" \/ s'.nm > s.nm \/ s'.nc > s.nc \/ s.sh = "stopping")]_<<s, hist>>
Returns == [][(s'.nc > s.nc /\ s.sh = "up") => \A k \in Ent : s.jr[k] # NoRec => s'.est[k] = "starting" /\ s'.rec[k] = s.jr[k]]_<<s, hist>>
=============================================================================
