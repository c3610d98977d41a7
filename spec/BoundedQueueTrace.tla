------------------------- MODULE BoundedQueueTrace -------------------------
(* Is the recorded sequence of queue calls a behaviour of BoundedQueue?      *)
EXTENDS BoundedQueue, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
IsEvent(o) == l <= Len(Trace) /\ E.op = o /\ l' = l + 1
Range(s) == { s[i] : i \in 1..Len(s) }
\* the logged content is exactly the abstract state after the call: the first n positions hold the items,
\* and the positions of the whole array hold every cell exactly once
Content == /\ E.n = Cardinality(DOMAIN q')
           /\ Len(E.addr) = Cardinality(cells') /\ Range(E.addr) = cells'
           /\ \A i \in 1..E.n : E.addr[i] \in DOMAIN q' /\ q'[E.addr[i]] = E.pri[i]
TraceInit == cells = {} /\ q = [c \in {} |-> 0] /\ sorted = TRUE /\ l = 1
TracePush == /\ IsEvent("push")
             /\ \/ E.added /\ ~E.evicted /\ E.cellp = E.p /\ PushRoom(E.p, E.cell)
                \/ E.added /\ E.evicted /\ E.cellp = E.p /\ PushEvict(E.p, E.cell, E.ev, E.evp)
                \/ ~E.added /\ ~E.evicted /\ PushReject(E.p)
TracePopMax == /\ IsEvent("popmax")
               /\ \/ E.ok /\ PopMax(E.cell, E.p)
                  \/ ~E.ok /\ PopEmpty
TracePopMin == /\ IsEvent("popmin")
               /\ \/ E.ok /\ PopMin(E.cell, E.p)
                  \/ ~E.ok /\ PopEmpty
TraceSet == IsEvent("set") /\ SetPrio(E.cell, E.p)
TraceRebuild == IsEvent("rebuild") /\ Rebuild
TraceInitQ == IsEvent("init") /\ Reset(E.cap)
TraceNext == /\ \/ TraceInitQ
                \/ TracePush
                \/ TracePopMax
                \/ TracePopMin
                \/ TraceSet
                \/ TraceRebuild
             /\ Content
TraceSpec == TraceInit /\ [][TraceNext]_<<qvars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
