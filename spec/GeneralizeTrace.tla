-------------------------- MODULE GeneralizeTrace --------------------------
(* Recorded calls of the real generalization functions.                      *)
EXTENDS Generalize, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
NoNums == [x \in {} |-> 0]
Init == l = 1
Back(m) == [v \in { m[a][1] : a \in DOMAIN m } |-> <<CHOOSE a \in DOMAIN m : m[a][1] = v>>]
Ok == \E g \in {IF E.op = "imp" THEN GeneralImp(E.t, E.ext, E.side) ELSE GeneralConj(E.t, E.ext)} :
        /\ E.ok = g.ok
        /\ g.ok => E.g = g.t /\ Subst(E.g, Back(g.map)) = E.t /\ E.fresh
Next == l <= Len(Trace) /\ l' = l + 1 /\ Ok = TRUE
Spec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
