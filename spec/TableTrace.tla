----------------------------- MODULE TableTrace ----------------------------
(* Calls of the real table (C05). *)
EXTENDS Links, Json, IOUtils
LOCAL INSTANCE TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, tb, cap
E == Trace[l]
TraceInit == l = 1 /\ tb = <<>> /\ cap = 0 /\ mem = 0 /\ tab = 0 /\ ids = 0 /\ used = 0
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1 /\ UNCHANGED mvars /\ tb' = E.tab /\ E.n = Len(E.tab)
  /\ cap' = IF E.op = "init" THEN E.cap ELSE cap
  /\ Table(E.tab, cap')
  /\ CASE E.op = "init" -> E.tab = <<>>
       [] E.op = "rem" -> E.tab = Remove(tb, E.k)
       [] E.op = "add" -> /\ Added(tb, E.imp, E.tab, cap)
                          /\ IF \E k \in 1..Len(E.tab) : E.tab[k].t = E.imp.t
                             THEN E.ret # 0 /\ E.tab[E.ret].t = E.imp.t ELSE E.ret = 0
TraceSpec == TraceInit /\ [][TraceNext]_<<l, tb, cap, mvars>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
