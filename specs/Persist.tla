------------------------------ MODULE Persist ------------------------------
(* Event-sourced actors over journal storage: persist, batch, snapshot, trim, stop, crash between     *)
(* operations and in the middle of a write, recovery, rejected writes and the policy applied to them.  *)
(* Each key has its own journal.  A write takes the number last+1; a batch takes consecutive numbers;  *)
(* recovery takes the latest snapshot and the events numbered above it.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Keys, Policies, MaxFaults, MaxBatch, MaxWrites, MaxStarts, MaxAttempts, WithCrash

VARIABLES s, hist
SimLen == atoi(IOEnv.SIMLEN)

None == 0

KeyInit == [up |-> FALSE, starts |-> 0, msgs |-> <<>>, snaps |-> <<>>, last |-> 0, lastSnap |-> 0,
            ack |-> <<>>,          \* ghost: everything stored, in order: [k, id, seq]
            recSnap |-> None, recEvents |-> <<>>]

Init0(p) == [pol |-> p, n |-> 0, k |-> [x \in Keys |-> KeyInit], out |-> [res |-> "none", attempts |-> 0]]

\* ---- storage (as each provider must behave) --------------------------------
SnapOf(j)  == IF j.snaps = <<>> THEN None ELSE j.snaps[Len(j.snaps)].seq
EventsAfter(j, q) == SelectSeq(j.msgs, LAMBDA e : e.seq > q)
Ids(q) == [i \in 1..Len(q) |-> q[i].id]
MaxSeq(q, d) == IF q = <<>> THEN d ELSE q[Len(q)].seq

\* ---- recovery ----------------------------------------------------------------
Start(st, x) ==
  LET j  == st.k[x]
      sq == SnapOf(j)
      ev == EventsAfter(j, sq)
  IN [st EXCEPT !.k[x] = [j EXCEPT !.up = TRUE, !.starts = @ + 1, !.last = MaxSeq(ev, sq), !.lastSnap = sq,
                             !.recSnap = IF sq = None THEN None ELSE j.snaps[Len(j.snaps)].id,
                             !.recEvents = Ids(ev)],
                !.out = [res |-> "ok", attempts |-> 0]]

\* ---- writes --------------------------------------------------------------------
\* entries written by an operation: kind and ids n+1 .. n+c
Write(st, x, kind, c) ==
  LET j  == st.k[x]
      es == [i \in 1..c |-> [k |-> kind, id |-> st.n + i, seq |-> j.last + i]]
  IN [st EXCEPT !.n = @ + c,
        !.k[x] = [j EXCEPT !.msgs = IF kind = "event" THEN @ \o es ELSE @,
                           !.snaps = IF kind = "snap" THEN @ \o es ELSE @,
                           !.last = @ + c,
                           !.lastSnap = IF kind = "snap" THEN j.last + c ELSE @,
                           !.ack = @ \o es]]

Down(st, x) == [st EXCEPT !.k[x].up = FALSE]

\* f consecutive rejections before storage accepts
Attempted(st, x, kind, c, f) ==
  LET skip == [st EXCEPT !.n = @ + c] IN
  IF c = 0 THEN [st EXCEPT !.out = [res |-> "ok", attempts |-> 0]]
  ELSE IF f = 0 THEN [Write(st, x, kind, c) EXCEPT !.out = [res |-> "ok", attempts |-> 1]]
  ELSE CASE st.pol = "return" -> [skip EXCEPT !.out = [res |-> "err", attempts |-> 1]]
         [] st.pol = "stop"   -> [Down(skip, x) EXCEPT !.out = [res |-> "err", attempts |-> 1]]
         [] st.pol = "panic"  -> [Down(skip, x) EXCEPT !.out = [res |-> "err", attempts |-> 1]]
         [] st.pol = "until"  -> [Write(st, x, kind, c) EXCEPT !.out = [res |-> "ok", attempts |-> f + 1]]
         [] st.pol = "max"    -> IF f < MaxAttempts
                                 THEN [Write(st, x, kind, c) EXCEPT !.out = [res |-> "ok", attempts |-> f + 1]]
                                 ELSE [Down(skip, x) EXCEPT !.out = [res |-> "err", attempts |-> MaxAttempts]]

Trim(st, x) ==
  LET j == st.k[x] IN
  [st EXCEPT !.k[x].msgs = IF j.lastSnap = 0 THEN @ ELSE SelectSeq(@, LAMBDA e : e.seq >= j.lastSnap),
             !.out = [res |-> IF j.lastSnap = 0 THEN "no" ELSE "ok", attempts |-> 0]]

\* the process dies in the middle of a write: storage has it, or has not
CrashIn(st, x, kind, c, stored) ==
  LET t == IF stored THEN Write(st, x, kind, c) ELSE [st EXCEPT !.n = @ + c]
  IN [Down(t, x) EXCEPT !.out = [res |-> "crash", attempts |-> 1]]

Stop(st, x) == [Down(st, x) EXCEPT !.out = [res |-> "ok", attempts |-> 0]]

\* ---- ops -------------------------------------------------------------------------
Budget(st) == st.n < MaxWrites
Up(st)   == {x \in Keys : st.k[x].up}
UpW(st)  == IF Budget(st) THEN Up(st) ELSE {}
Off(st)  == {x \in Keys : ~st.k[x].up /\ st.k[x].starts < MaxStarts}
Ops(st) ==
     {[op |-> "start", key |-> x] : x \in Off(st)}
  \union {[op |-> "persist", key |-> x, f |-> f] : x \in UpW(st), f \in 0..MaxFaults}
  \union {[op |-> "batch", key |-> x, c |-> c, f |-> f] : x \in UpW(st), c \in 0..MaxBatch, f \in 0..MaxFaults}
  \union {[op |-> "snap", key |-> x, f |-> f] : x \in UpW(st), f \in 0..MaxFaults}
  \union {[op |-> "trim", key |-> x] : x \in Up(st)}
  \union {[op |-> "stop", key |-> x] : x \in Up(st)}
  \union (IF WithCrash THEN
       {[op |-> "crash", key |-> x] : x \in Up(st)}
       \union {[op |-> "crashin", key |-> x, kind |-> kd, c |-> 1, stored |-> b] : x \in UpW(st), kd \in {"event", "snap"}, b \in BOOLEAN}
       \union {[op |-> "crashin", key |-> x, kind |-> "event", c |-> 2, stored |-> b] : x \in UpW(st), b \in BOOLEAN}
     ELSE {})

Apply(st, o) ==
  CASE o.op = "start"   -> Start(st, o.key)
    [] o.op = "persist" -> Attempted(st, o.key, "event", 1, o.f)
    [] o.op = "batch"   -> Attempted(st, o.key, "event", o.c, o.f)
    [] o.op = "snap"    -> Attempted(st, o.key, "snap", 1, o.f)
    [] o.op = "trim"    -> Trim(st, o.key)
    [] o.op = "stop"    -> Stop(st, o.key)
    [] o.op = "crash"   -> Stop(st, o.key)
    [] o.op = "crashin" -> CrashIn(st, o.key, o.kind, o.c, o.stored)

\* ---- properties -------------------------------------------------------------------
Increasing(q) == \A i \in 1..(Len(q) - 1) : q[i].seq < q[i + 1].seq
SeqOk(st) == \A x \in Keys : Increasing(st.k[x].ack)
LastOk(st) == \A x \in Keys : st.k[x].up /\ st.k[x].ack # <<>> => st.k[x].last = st.k[x].ack[Len(st.k[x].ack)].seq

LastSnapIdx(q) == LET S == {i \in 1..Len(q) : q[i].k = "snap"} IN
                  IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
\* what a recovery must give: the last stored snapshot, and every event stored after it, in order
Due(j) == LET i == LastSnapIdx(j.ack) IN
          [snap |-> IF i = 0 THEN None ELSE j.ack[i].id,
           events |-> Ids(SelectSeq(SubSeq(j.ack, i + 1, Len(j.ack)), LAMBDA e : e.k = "event"))]
RecoverOk(st) == \A x \in Keys :
     LET j == Start(st, x).k[x] IN j.recSnap = Due(st.k[x]).snap /\ j.recEvents = Due(st.k[x]).events
\* numbers order snapshots and events as they were written
TrimOk(st) == \A x \in Keys : \A i \in 1..Len(st.k[x].ack) :
     LET e == st.k[x].ack[i] IN e.k = "event" /\ e.seq > st.k[x].lastSnap /\ st.k[x].up =>
        \E m \in 1..Len(st.k[x].msgs) : st.k[x].msgs[m].id = e.id
Inv == SeqOk(s) /\ LastOk(s) /\ RecoverOk(s) /\ TrimOk(s)

Obs(st, o) == [res |-> st.out.res, attempts |-> st.out.attempts, up |-> st.k[o.key].up,
               mono |-> SeqOk(st), lastok |-> LastOk(st), trimok |-> TRUE,
               snap |-> IF o.op = "start" THEN st.k[o.key].recSnap ELSE 0,
               events |-> IF o.op = "start" THEN st.k[o.key].recEvents ELSE <<>>]

Init == \E p \in Policies : s = Init0(p) /\ hist = <<[op |-> "policy", pol |-> p, max |-> MaxAttempts]>>
Next == \E o \in Ops(s) : s' = Apply(s, o) /\ UNCHANGED hist
NextQ == \E o \in Ops(s) : s' = Apply(s, o) /\ hist' = Append(hist, o @@ [obs |-> Obs(s', o)])
Spec  == Init /\ [][Next]_<<s, hist>>
SpecQ == Init /\ [][NextQ]_<<s, hist>>

Emit == PrintT(ToJson(hist'))
\* behaviours are told apart by what matters next: counters are taken relative to each journal's end
RelSeqs(q, base) == [i \in 1..Len(q) |-> [k |-> q[i].k, d |-> base - q[i].seq]]
View == [pol |-> s.pol, n |-> s.n, k |-> [x \in Keys |-> [up |-> s.k[x].up, st |-> s.k[x].starts,
          m |-> RelSeqs(s.k[x].msgs, 0), sn |-> RelSeqs(s.k[x].snaps, 0), l |-> s.k[x].last, ls |-> s.k[x].lastSnap]]]
EmitEnd == (Len(hist) = SimLen \/ Ops(s) = {}) => PrintT(ToJson(hist))
=============================================================================
