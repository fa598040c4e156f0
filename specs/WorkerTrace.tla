---------------------------- MODULE WorkerTrace ----------------------------
(* Trace specification for worker pools used from several threads at once.                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, size, total, called, owner, ended, returned
tv == <<l, size, total, called, owner, ended, returned>>
TraceInit == l = 1 /\ size = 0 /\ total = 0 /\ called = {} /\ owner = <<>> /\ ended = {} /\ returned = {}
Ev(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Pool == Ev("pool") /\ size' = Trace[l].size /\ total' = Trace[l].total /\ called' = {} /\ owner' = <<>> /\ ended' = {} /\ returned' = {}
DoCall == Ev("call") /\ called' = called \union {Trace[l].m} /\ UNCHANGED <<size, total, owner, ended, returned>>
Begin == Ev("begin") /\ LET m == Trace[l].m IN LET w == Trace[l].w IN
   /\ m \in called /\ m \notin DOMAIN owner
   /\ \A x \in DOMAIN owner : owner[x] = w => x \in ended          \* a worker handles one request at a time
   /\ owner' = (m :> w) @@ owner
   /\ UNCHANGED <<size, total, called, ended, returned>>
End == Ev("end") /\ LET m == Trace[l].m IN
   /\ m \in DOMAIN owner /\ m \notin ended /\ owner[m] = Trace[l].w /\ ended' = ended \union {m}
   /\ UNCHANGED <<size, total, called, owner, returned>>
Ret == Ev("ret") /\ LET m == Trace[l].m IN
   /\ m \in ended /\ m \notin returned /\ Trace[l].r = m * 7 + 3 /\ returned' = returned \union {m}
   /\ UNCHANGED <<size, total, called, owner, ended>>
Share(w) == Cardinality({x \in DOMAIN owner : owner[x] = w})
Used == {owner[x] : x \in DOMAIN owner}
Done == Ev("done") /\ returned = 1..total /\ called = 1..total
   /\ Cardinality(Used) = (IF total < size THEN total ELSE size)
   /\ \A v, w \in Used : Share(v) <= Share(w) + 1
   /\ UNCHANGED <<size, total, called, owner, ended, returned>>
TraceNext == Pool \/ DoCall \/ Begin \/ End \/ Ret \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_tv
TraceAccepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
                 ELSE PrintT("STUCK " \o ToString(TLCGet("stats").diameter)) /\ FALSE
=============================================================================
