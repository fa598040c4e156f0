------------------------------ MODULE Recovery ------------------------------
(* Recovery of a persistent actor under failing reads and undecodable entries, for each policy.        *)
(* A start makes attempts (read snapshot, then read events) until one succeeds or the policy gives up; *)
(* then the snapshot and the events after it are handed to the actor in order, and the first one that  *)
(* cannot be decoded ends the start.  A message sent while the actor recovers waits for the outcome.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Policies, MaxEntries, MaxFaults, MaxStarts, MaxAttempts, Bads
VARIABLES s, hist
SimLen == atoi(IOEnv.SIMLEN)

Init0(p) == [pol |-> p, js |-> <<>>, up |-> FALSE, starts |-> 0, log |-> <<>>, create |-> "none", msg |-> "none", reads |-> 0]

Seed(st, kind, bad) == [st EXCEPT !.js = Append(@, [k |-> kind, bad |-> bad])]
Repair(st) == [st EXCEPT !.js = [i \in 1..Len(@) |-> [@[i] EXCEPT !.bad = FALSE]]]

Rep(x, n) == [i \in 1..n |-> x]
Snaps(js) == {i \in 1..Len(js) : js[i].k = "snap"}
LastSnap(js) == IF Snaps(js) = {} THEN 0 ELSE CHOOSE i \in Snaps(js) : \A j \in Snaps(js) : j <= i
\* indices handed to the actor, in order: the last snapshot, then the events after it
Feed(js) == LET q == LastSnap(js)
                idx == [i \in 1..Len(js) |-> i]
            IN SelectSeq(idx, LAMBDA i : i = q \/ (i > q /\ js[i].k = "event"))

\* log of handing over: stops with an error at the first undecodable entry
RECURSIVE Hand(_, _)
Hand(js, f) == IF f = <<>> THEN <<<<"post", 0>>>>
               ELSE IF js[Head(f)].bad THEN <<<<"err", 0>>, <<"stopped", 0>>>>
               ELSE <<<<js[Head(f)].k, Head(f)>>>> \o Hand(js, Tail(f))

Good(js) == \A i \in 1..Len(Feed(js)) : ~js[Feed(js)[i]].bad

Start(st, fs, fm) ==
  LET f == fs + fm
      gaveUp == CASE st.pol = "stop" -> f > 0 [] st.pol = "panic" -> f > 0
                  [] st.pol = "until" -> FALSE [] st.pol = "max" -> f >= MaxAttempts
      tries  == CASE ~gaveUp -> f + 1 [] st.pol = "max" -> MaxAttempts [] OTHER -> 1
      errs   == IF gaveUp THEN tries ELSE f
      lg     == <<<<"pre", 0>>>> \o Rep(<<"err", 0>>, errs) \o
                (IF ~gaveUp THEN Hand(st.js, Feed(st.js))
                 ELSE IF st.pol = "panic" THEN <<>> ELSE <<<<"failed", 0>>, <<"stopped", 0>>>>)
      ok     == ~gaveUp /\ Good(st.js)
  IN [st EXCEPT !.up = ok, !.starts = @ + 1, !.reads = tries,
                !.log = IF ok THEN Append(lg, <<"handled", 0>>) ELSE lg,
                !.create = IF ok THEN "ok" ELSE "err", !.msg = IF ok THEN "ok" ELSE "err"]
Stop(st) == [st EXCEPT !.up = FALSE, !.log = Append(@, <<"stopped", 0>>)]

Ops(st) ==
     (IF ~st.up /\ Len(st.js) < MaxEntries
        THEN {[op |-> "seed", kind |-> k, bad |-> b] : k \in {"event", "snap"}, b \in Bads} ELSE {})
  \union (IF ~st.up /\ st.starts < MaxStarts
        THEN {[op |-> "start", fs |-> a, fm |-> b] : a \in 0..MaxFaults, b \in 0..MaxFaults} ELSE {})
  \union (IF st.up THEN {[op |-> "stop"]} ELSE {})
  \union (IF ~st.up /\ \E i \in 1..Len(st.js) : st.js[i].bad THEN {[op |-> "repair"]} ELSE {})

Apply(st, o) == CASE o.op = "seed" -> Seed(st, o.kind, o.bad) [] o.op = "start" -> Start(st, o.fs, o.fm)
                  [] o.op = "stop" -> Stop(st) [] o.op = "repair" -> Repair(st)

Obs(st, o) == IF o.op \in {"start", "stop"} THEN [create |-> st.create, msg |-> st.msg, log |-> st.log, reads |-> st.reads, up |-> st.up]
              ELSE [create |-> "any"]

\* properties
Has(x) == \E i \in 1..Len(s.log) : s.log[i][1] = x
NoPartial == (s.starts > 0 /\ s.create # "ok") => ~Has("post") /\ ~Has("handled") /\ Has("err") /\ ~s.up
Complete  == s.create = "ok" => Has("post") /\
               \A i \in 1..Len(s.log) : s.log[i][1] = "handled" => \E j \in 1..(i-1) : s.log[j][1] = "post"
UpOk      == s.up => s.create = "ok"

Init == \E p \in Policies : s = Init0(p) /\ hist = <<[op |-> "policy", pol |-> p, max |-> MaxAttempts]>>
Next == \E o \in Ops(s) : s' = Apply(s, o) /\ UNCHANGED hist
NextQ == \E o \in Ops(s) : s' = Apply(s, o) /\ hist' = Append(hist, o @@ [obs |-> Obs(s', o)])
Spec  == Init /\ [][Next]_<<s, hist>>
SpecQ == Init /\ [][NextQ]_<<s, hist>>
Emit == (hist'[Len(hist')].op = "start") => PrintT(ToJson(hist'))
View == [s EXCEPT !.log = 0, !.create = 0, !.msg = 0, !.reads = 0]
EmitEnd == (Len(hist) = SimLen \/ Ops(s) = {}) => PrintT(ToJson(hist))
=============================================================================
