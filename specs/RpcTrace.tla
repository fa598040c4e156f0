------------------------------ MODULE RpcTrace ------------------------------
(* Executions recorded from clusters with many concurrent requests: every request is handled once  *)
(* and answered with its own number; afterwards nothing is in flight.                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, called, returned, handled
TraceInit == l = 1 /\ called = {} /\ returned = {} /\ handled = {}
Ev(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
DoCall == Ev("call") /\ Trace[l].m \notin called /\ called' = called \union {Trace[l].m} /\ UNCHANGED <<returned, handled>>
DoRet == Ev("ret") /\ Trace[l].m \in called \ returned /\ Trace[l].r = Trace[l].m /\ returned' = returned \union {Trace[l].m} /\ UNCHANGED <<called, handled>>
DoHandled == Ev("handled") /\ Trace[l].m \in called \ handled /\ handled' = handled \union {Trace[l].m} /\ UNCHANGED <<called, returned>>
DoEnd == Ev("end") /\ called = 1..Trace[l].total /\ returned = called /\ handled = called /\ Trace[l].inflight = 0
         /\ called' = {} /\ returned' = {} /\ handled' = {}
TraceNext == DoCall \/ DoRet \/ DoHandled \/ DoEnd
TraceSpec == TraceInit /\ [][TraceNext]_<<l, called, returned, handled>>
TraceAccepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
                 ELSE PrintT("STUCK " \o ToString(TLCGet("stats").diameter)) /\ FALSE
=============================================================================
