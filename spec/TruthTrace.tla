----------------------------- MODULE TruthTrace ----------------------------
(* Recorded results of the real truth functions.                             *)
EXTENDS TruthLaws, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
V(x) == TV(x.f, x.c)
Same(x, r) == Near(x.f, r.f) /\ Near(x.c, r.c)
Ok == LET v == V(E.v)  w == V(E.w)  r == E.r IN
  /\ \A n \in Unary  : r[n].in /\ r[n].c1 <= 0 /\ \E x \in Values(n, v, w) : Same(x, r[n])
  /\ \A n \in Binary : r[n].in /\ r[n].c1 <= 0 /\ r[n].c2 <= 0 /\ \E x \in Values(n, v, w) : Same(x, r[n])
  /\ v.c + w.c > 0 => /\ r.Revision.in /\ r.Revision.c1 >= 0 /\ r.Revision.c2 >= 0 /\ r.Revision.lo = 1 /\ r.Revision.hi = -1 /\ E.sym
                      /\ \E x \in {Revision(v, w)} : Near(x.c, r.Revision.c) /\ (v.c + w.c >= 100000 => Abs(x.f - r.Revision.f) <= 10000)
  /\ \E x \in {Eternalize(v)} : Same(x, r.Eternalize) /\ r.Eternalize.in /\ r.Eternalize.c1 <= 0
  /\ \E x \in {Project(v, E.t0, E.t1)} : Same(x, r.Projection) /\ r.Projection.in /\ r.Projection.c1 <= 0 /\ (E.t0 = Eternal => r.Projection.c1 = 0)
  /\ E.keep /\ (E.equal <=> v = w)
  /\ Near(E.exp, Exp(v)) /\ (v.c > 0 => E.exps = (IF v.f > Half THEN 1 ELSE IF v.f < Half THEN -1 ELSE 0))
  /\ Near(E.inv, v.c) /\ Near(E.w2c, W2C(v.c))
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Ok = TRUE
Spec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
