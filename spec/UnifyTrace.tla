----------------------------- MODULE UnifyTrace ----------------------------
(* Recorded calls of the real matching, substitution and term functions.     *)
EXTENDS Unify, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, dist
E == Trace[l]
\* the measured values of the scripts, in tenths
TheNums == [n1 |-> [m |-> "x", v |-> 1000000], n2 |-> [m |-> "x", v |-> 5500000], n3 |-> [m |-> "x", v |-> 12000000],
            m1 |-> [m |-> "y", v |-> 1000000], m2 |-> [m |-> "y", v |-> 9000000]]
Init == l = 1 /\ dist = One \div 10   \* values in tenths of 1e-8
SameMap(m, seq) == /\ Len(seq) = Cardinality(DOMAIN m)
                   /\ \A i \in 1..Len(seq) : seq[i].v \in DOMAIN m /\ m[seq[i].v] = seq[i].t
Applied(rec, t, m) == \E r \in {Subst(t, m)} : IF Fits(r) THEN rec.ok /\ rec.t = r ELSE ~rec.ok
Unified == \E m \in {MatchDiscountedV(E.g, E.s, E.c, dist, IF E.q THEN QueryVars ELSE Vars)} :
  /\ E.same
  /\ E.ok = m.ok
  /\ m.ok => /\ SameMap(m.map, E.map)
             /\ E.tf = E.f \/ E.c = 0
             /\ Near(E.tc, m.c) \/ E.c = 0
             /\ Applied(E.ag, E.g, m.map)
             /\ m.map # <<>> => Subst(E.g, m.map) = E.s \/ E.c # 0    \* (different measured values remain)
             /\ Applied(E.ax, E.x, m.map)
RECURSIVE PartAt(_, _, _)
\* the subterm at place i of the tree that t occupies from place k on
PartAt(t, i, k) == IF i = k THEN t ELSE IF k > i THEN NoTerm
                   ELSE LET a == IF Len(t) > 1 THEN PartAt(t[2], i, 2*k + 1) ELSE NoTerm
                        IN IF a # NoTerm THEN a ELSE IF Len(t) > 2 THEN PartAt(t[3], i, 2*k + 2) ELSE NoTerm
RECURSIVE With(_, _, _, _)
With(t, i, k, u) == IF i = k THEN u ELSE IF k > i \/ Leaf(t) THEN t
                    ELSE IF Len(t) = 2 THEN <<t[1], With(t[2], i, 2*k + 1, u)>>
                    ELSE <<t[1], With(t[2], i, 2*k + 1, u), With(t[3], i, 2*k + 2, u)>>
RECURSIVE Places(_)
Places(t) == IF Leaf(t) THEN {t[1]} ELSE {t[1]} \cup Places(t[2]) \cup (IF Len(t) > 2 THEN Places(t[3]) ELSE {})
TermsCall ==
  /\ E.equal = (E.a = E.b)
  /\ E.a = E.b => E.hash
  /\ E.cx = Complexity(E.a)
  /\ E.part = PartAt(E.a, E.i, 0)
  /\ E.fresh
  \* replacing an atom (a compound leaves its parts behind: only atoms are ever replaced)
  /\ Leaf(PartAt(E.a, E.i, 0)) /\ PartAt(E.a, E.i, 0) # NoTerm =>
       \E r \in {With(E.a, E.i, 0, E.b)} : IF Fits(r) THEN E.rep.ok /\ E.rep.t = r ELSE ~E.rep.ok
  /\ { x \in {0, 1} : \E k \in 1..Len(E.has) : E.has[k] = x } =
     { IF x \in Places(E.a) THEN 1 ELSE 0 : x \in Places(E.b) }
  /\ E.vars = << IF HasVarIn(E.a, IndepVars) THEN 1 ELSE 0, IF HasVarIn(E.a, DepVars) THEN 1 ELSE 0,
                 IF HasVarIn(E.a, QueryVars) THEN 1 ELSE 0, IF HasVar(E.a) THEN 1 ELSE 0 >>
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ CASE E.op = "num"   -> [m |-> E.m, v |-> E.v] = TheNums[E.a] /\ UNCHANGED dist
             [] E.op = "dist"  -> dist' = E.v
             [] E.op = "unify" -> Unified /\ UNCHANGED dist
             [] E.op = "terms" -> TermsCall /\ UNCHANGED dist
Spec == Init /\ [][Next]_<<l, dist>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
