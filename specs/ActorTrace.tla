----------------------------- MODULE ActorTrace -----------------------------
(* Trace specification for executions recorded from real actors with several concurrent senders.    *)
(* Events: call m (before the send), sent m (the send was accepted), begin/end m (in the handler),   *)
(* ret m r (the sender got its result).  The mailbox is a FIFO queue into which m is put at some      *)
(* moment between call and sent; an execution is a behaviour of that queue exactly if no message is   *)
(* taken while one that was sent before it was called is still waiting.                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, called, sent, begun, ended, returned, busy, after
\* after[m]: messages accepted before m was called
tv == <<l, called, sent, begun, ended, returned, busy, after>>

TraceInit == l = 1 /\ called = {} /\ sent = {} /\ begun = {} /\ ended = {} /\ returned = {} /\ busy = 0 /\ after = <<>>

Ev(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1

Reset  == Ev("reset") /\ busy = 0
          /\ sent = called /\ begun = called /\ ended = called     \* nothing lost
          /\ returned = {m \in called : TRUE}
          /\ called' = {} /\ sent' = {} /\ begun' = {} /\ ended' = {} /\ returned' = {} /\ busy' = 0 /\ after' = <<>>
DoCall == Ev("call") /\ LET m == Trace[l].m IN
            /\ m \notin called
            /\ called' = called \union {m}
            /\ after' = (m :> sent) @@ after
            /\ UNCHANGED <<sent, begun, ended, returned, busy>>
DoSent == Ev("sent") /\ LET m == Trace[l].m IN
            /\ m \in called \ sent /\ sent' = sent \union {m}
            /\ UNCHANGED <<called, begun, ended, returned, busy, after>>
DoBegin == Ev("begin") /\ LET m == Trace[l].m IN
            /\ busy = 0 /\ m \in called \ begun
            /\ after[m] \subseteq begun
            /\ busy' = m /\ begun' = begun \union {m}
            /\ UNCHANGED <<called, sent, ended, returned, after>>
DoEnd == Ev("end") /\ LET m == Trace[l].m IN
            /\ busy = m /\ busy' = 0 /\ ended' = ended \union {m}
            /\ UNCHANGED <<called, sent, begun, returned, after>>
\* the result carries the number the handler computed for m; fire-and-forget calls return 0 on acceptance
DoRet == Ev("ret") /\ LET m == Trace[l].m IN
            /\ m \in called \ returned
            /\ (Trace[l].wait => m \in ended /\ Trace[l].r = m * 7 + 3)
            /\ returned' = returned \union {m}
            /\ UNCHANGED <<called, sent, begun, ended, busy, after>>

TraceNext == DoCall \/ DoSent \/ DoBegin \/ DoEnd \/ DoRet \/ Reset
TraceSpec == TraceInit /\ [][TraceNext]_tv
TraceAccepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
                 ELSE PrintT("STUCK " \o ToString(TLCGet("stats").diameter)) /\ FALSE
=============================================================================
