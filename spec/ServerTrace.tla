----------------------------- MODULE ServerTrace ---------------------------
(* Recorded runs of the real server under chosen schedules (C18).            *)
EXTENDS Server, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, m
E == Trace[l]
Init == l = 1 /\ m = Fresh(Zero)
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ IF E.k = "run" THEN m' = Fresh([s |-> E.s, n |-> E.n])
           ELSE Allowed(m, E) = TRUE /\ m' = After(m, E)
Spec == Init /\ [][Next]_<<l, m>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
