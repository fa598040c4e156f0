------------------------------- MODULE Watch -------------------------------
(* Who watches whom, and the notices that follow.  Requests to watch, to stop watching and to    *)
(* stop are messages to the watched actor, so they queue behind whatever it is busy with.         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Actors, MaxOps, Acts, Ways   \* Ways: ways of stopping, subset of {"stop", "nstop", "self", "parent"}
VARIABLES s, hist
SimLen == atoi(IOEnv.SIMLEN)

Init0 == [ph |-> [x \in Actors |-> "running"], busy |-> [x \in Actors |-> FALSE],
          box |-> [x \in Actors |-> <<>>], watch |-> [x \in Actors |-> {}],
          seen |-> [x \in Actors |-> <<>>], ops |-> 0]

CanTake(st, x) == st.ph[x] = "running" /\ ~st.busy[x] /\ st.box[x] # <<>>
Take(st, x) ==
  LET m == Head(st.box[x])
      t == [st EXCEPT !.box[x] = Tail(@)]
  IN CASE m[1] = "watch" -> [t EXCEPT !.watch[x] = @ \union {m[2]}]
       [] m[1] = "unwatch" -> [t EXCEPT !.watch[x] = @ \ {m[2]}]
       [] m[1] = "work" -> [t EXCEPT !.busy[x] = TRUE]
       [] m[1] = "stop" -> [t EXCEPT !.ph[x] = "hook"]
       [] m[1] = "notice" -> [t EXCEPT !.seen[x] = Append(@, m[2])]

\* a watcher holds the request and hands it over itself, so it has to be idle
Idle(st, w) == st.ph[w] = "running" /\ ~st.busy[w]
Post(st, x, m) == IF st.ph[x] = "gone" THEN st ELSE [st EXCEPT !.box[x] = Append(@, m)]

Release(st, x) ==
  LET t == [st EXCEPT !.ph[x] = "gone", !.box[x] = <<>>, !.watch[x] = {}]
  IN [t EXCEPT !.box = [w \in Actors |-> IF w \in st.watch[x] /\ t.ph[w] # "gone" THEN Append(t.box[w], <<"notice", x>>) ELSE t.box[w]]]

Stopping(st, x) == \E i \in 1..Len(st.box[x]) : st.box[x][i][1] = "stop"
Free(st, x) == st.ph[x] = "running" /\ ~Stopping(st, x)

Ops(st) == IF st.ops >= MaxOps THEN {} ELSE
     {[op |-> "watch", w |-> w, x |-> x] : w \in {y \in Actors : Idle(st, y)}, x \in {y \in Actors : Free(st, y)}}
  \union {[op |-> "unwatch", w |-> w, x |-> x] : w \in {y \in Actors : "unwatch" \in Acts /\ Idle(st, y)}, x \in {y \in Actors : Free(st, y)}}
  \union {[op |-> "work", x |-> x] : x \in {y \in Actors : "work" \in Acts /\ Free(st, y) /\ ~st.busy[y]}}
  \union {[op |-> "done", x |-> x] : x \in {y \in Actors : st.ph[y] = "running" /\ st.busy[y]}}
  \union {[op |-> "stop", x |-> x, how |-> h] : x \in {y \in Actors : Free(st, y)}, h \in Ways}
  \union {[op |-> "release", x |-> x] : x \in {y \in Actors : st.ph[y] = "hook"}}

Apply0(st, o) ==
  CASE o.op = "watch" -> Post(st, o.x, <<"watch", o.w>>)
    [] o.op = "unwatch" -> Post(st, o.x, <<"unwatch", o.w>>)
    [] o.op = "work" -> Post(st, o.x, <<"work", 0>>)
    [] o.op = "done" -> [st EXCEPT !.busy[o.x] = FALSE]
    [] o.op = "stop" -> Post(st, o.x, <<"stop", 0>>)
    [] o.op = "release" -> Release(st, o.x)
Apply(st, o) == [Apply0(st, o) EXCEPT !.ops = @ + 1]

RECURSIVE Quiesce(_)
Quiesce(st) == IF \E x \in Actors : CanTake(st, x) THEN Quiesce(Take(st, CHOOSE x \in Actors : CanTake(st, x))) ELSE st

Obs(st) == [seen |-> st.seen, ph |-> st.ph]

Init == s = Init0 /\ hist = <<>>
Next == /\ \/ \E o \in Ops(s) : s' = Apply(s, o) /\ (o.op \in {"watch", "unwatch"} => o.w # o.x)
           \/ \E x \in Actors : CanTake(s, x) /\ s' = Take(s, x)
        /\ UNCHANGED hist
Spec == Init /\ [][Next]_<<s, hist>>
NextQ == \E o \in Ops(s) : /\ (o.op \in {"watch", "unwatch"} => o.w # o.x)
                           /\ s' = Quiesce(Apply(s, o))
                           /\ hist' = Append(hist, o @@ [obs |-> Obs(s')])
SpecQ == Init /\ [][NextQ]_<<s, hist>>
Emit == PrintT(ToJson(hist'))
View == [s EXCEPT !.ops = 0]
EmitEnd == (Len(hist) = SimLen \/ Ops(s) = {}) => PrintT(ToJson(hist))

Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
OnceOnly == \A w, x \in Actors : Count(s.seen[w], x) <= 1
NotEarly == \A w, x \in Actors : Count(s.seen[w], x) > 0 => s.ph[x] = "gone"
\* whoever was registered when the actor ended gets the notice (or ends itself)
Delivered == [][\A w, x \in Actors : s.ph[x] = "hook" /\ s'.ph[x] = "gone" /\ w \in s.watch[x] /\ s.ph[w] # "gone" /\ w # x
                  => Len(s'.box[w]) > 0 /\ s'.box[w][Len(s'.box[w])] = <<"notice", x>>]_<<s, hist>>
NotOthers == [][\A w, x \in Actors : s.ph[x] = "hook" /\ s'.ph[x] = "gone" /\ w \notin s.watch[x] => s'.box[w] = s.box[w] \/ w = x]_<<s, hist>>
=============================================================================
