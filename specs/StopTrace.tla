----------------------------- MODULE StopTrace -----------------------------
(* Trace specification for executions recorded from real actors that are stopped while several      *)
(* senders keep sending to them.  Events: call m / ret m r (r: "ok" with the right result, "wrong",  *)
(* "err", or "hang" if nothing came back for a long time), begin/end m (in the handler), stopcall k, *)
(* stopret k r, hook / hookend (the stop hook).  A stop is a message like any other: the mailbox is   *)
(* FIFO, what is behind it is refused, and every caller hears of it.                                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, t
Empty == [called |-> {}, begun |-> {}, ended |-> {}, back |-> {}, busy |-> 0, stops |-> {}, stopsback |-> {}, late |-> {}, hook |-> 0]
\* late: messages called after a stop was answered or queued
TraceInit == l = 1 /\ t = Empty
Ev(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
M == Trace[l].m

Reset == Ev("reset") /\ t.busy = 0 /\ t.back = t.called /\ t.stopsback = t.stops /\ t.begun = t.ended
         /\ (t.stops # {} => t.hook = 2) /\ t' = Empty
Call == Ev("call") /\ M \notin t.called
        /\ t' = [t EXCEPT !.called = @ \union {M}, !.late = IF t.stopsback # {} THEN @ \union {M} ELSE @]
Begin == Ev("begin") /\ t.busy = 0 /\ t.hook = 0 /\ M \in t.called \ (t.begun \union t.late \union t.back)
         /\ t' = [t EXCEPT !.busy = M, !.begun = @ \union {M}]
End == Ev("end") /\ t.busy = M /\ t' = [t EXCEPT !.busy = 0, !.ended = @ \union {M}]
Ret == Ev("ret") /\ M \in t.called \ t.back
       /\ \/ Trace[l].r = "ok" /\ M \in t.ended
          \/ Trace[l].r = "err" /\ M \notin t.begun /\ t.stops # {}
       /\ t' = [t EXCEPT !.back = @ \union {M}]
StopCall == Ev("stopcall") /\ M \notin t.stops /\ t' = [t EXCEPT !.stops = @ \union {M}]
\* a stop that is waited for returns after the stop hook; one that is not, at once; both are then ahead of what is called later
StopRet == Ev("stopret") /\ M \in t.stops \ t.stopsback
           /\ \/ Trace[l].r = "ok" /\ t.hook = 2
              \/ Trace[l].r = "queued"
              \/ Trace[l].r = "err" /\ Cardinality(t.stops) > 1
           /\ t' = [t EXCEPT !.stopsback = @ \union {M}]
Hook == Ev("hook") /\ t.hook = 0 /\ t.busy = 0 /\ t.stops # {} /\ t' = [t EXCEPT !.hook = 1]
HookEnd == Ev("hookend") /\ t.hook = 1 /\ t' = [t EXCEPT !.hook = 2]

TraceNext == Reset \/ Call \/ Begin \/ End \/ Ret \/ StopCall \/ StopRet \/ Hook \/ HookEnd
TraceSpec == TraceInit /\ [][TraceNext]_<<l, t>>
TraceAccepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
                 ELSE PrintT("STUCK " \o ToString(TLCGet("stats").diameter)) /\ FALSE
=============================================================================
