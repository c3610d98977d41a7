----------------------------- MODULE RulesTrace ----------------------------
(* What the real rules concluded from given premises (C09).                  *)
EXTENDS Inference, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
NoNums == [x \in {} |-> 0]
Init == l = 1
Got == { E.got[k] : k \in 1..Len(E.got) }
Is3(g, x) == g.e.t = x.t /\ Near(g.e.f, x.f) /\ Near(g.e.c, x.c)
Exactly(want) ==
  /\ \A x \in want : \E g \in Got : Is3(g, x)
  /\ \A g \in Got : /\ \E x \in want : Is3(g, x)
                    /\ g.derived /\ g.e.ty = "b" /\ g.e.st = E.st /\ g.e.o = E.o /\ g.e.dt = E.dt /\ g.e.ct = E.now
                    /\ Near(g.pr, Mul(E.pr, Exp(TV(g.e.f, g.e.c))))
Ok == CASE E.op = "one"   -> \E w \in {FromOne(E.t, E.v)} : Exactly(w)
        [] E.op = "two"   -> \E w \in {FromTwo(E.t, E.v, E.u, E.w)} : Exactly(w)
        [] E.op = "dead"  -> E.got = <<>>        \* the concept of the second premise was forgotten
        [] E.op = "input" -> /\ Len(E.got) = 1 /\ ~E.got[1].derived
                             /\ E.got[1].e.t = Reduce(E.t) /\ Near(E.got[1].e.f, E.f) /\ Near(E.got[1].e.c, E.c)
Next == l <= Len(Trace) /\ l' = l + 1 /\ Ok = TRUE
Spec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
