---------------------------- MODULE LookupTrace ----------------------------
EXTENDS Lookup, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Is(o) == E.op = o
Table == {"init", "set", "get", "del"}
Entries == UNION { { <<b, i>> : i \in 1..Len(E.chains[b]) } : b \in 1..Len(E.chains) }
At(p) == E.chains[p[1]][p[2]]
\* the chains hold exactly the map, each entry in its own cell; all other cells are free, each once
Content ==
  CASE E.op \in Table ->
         /\ Cardinality(Entries) = Cardinality(DOMAIN map')
         /\ \A p \in Entries : At(p).k \in DOMAIN map' /\ map'[At(p).k] = At(p).v /\ used'[At(p).k] = At(p).c
         /\ { At(p).k : p \in Entries } = DOMAIN map'
         /\ Len(E.free) = Cardinality(cells') - Cardinality(Entries)
         /\ { E.free[i] : i \in 1..Len(E.free) } = cells' \ { At(p).c : p \in Entries }
         /\ (E.op \in {"set", "del", "get"}) => E.longest = (CHOOSE m \in { Len(E.chains[b]) : b \in 1..Len(E.chains) } : \A b \in 1..Len(E.chains) : Len(E.chains[b]) <= m)
    [] E.op \in {"stackinit", "push", "pop"} -> E.items = stk' /\ E.empty = (stk' = <<>>)
    [] OTHER -> E.ids = ring'
TraceInit == cells = {} /\ used = [k \in {} |-> 0] /\ map = [k \in {} |-> 0] /\ stk = <<>> /\ stkCap = 0 /\ ring = <<>> /\ ringCap = 0 /\ l = 1
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ \/ Is("init") /\ TInit(E.n)
     \/ Is("set") /\ \E p \in Entries : At(p).k = E.k /\ Set(E.k, E.v, At(p).c)
     \/ Is("get") /\ Get(E.k, E.v)
     \/ Is("del") /\ Del(E.k)
     \/ Is("stackinit") /\ SInit(E.cap)
     \/ Is("push") /\ Push(E.v)
     \/ Is("pop") /\ PopS(E.v)
     \/ Is("ringinit") /\ E.none /\ RInit(E.cap)
     \/ Is("ringadd") /\ RAdd(E.v)
  /\ Content
TraceSpec == TraceInit /\ [][TraceNext]_<<lvars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
