------------------------------- MODULE Truth -------------------------------
(* The truth calculus (C10): a truth value is [f |-> frequency, c |->        *)
(* confidence] in units of 1e-8.  H is the evidential horizon (units of      *)
(* 1e-8), Decay the projection decay per step.                               *)
EXTENDS Fixed
CONSTANTS H, Decay, MaxConf, Reliance

TV(f, c) == [f |-> f, c |-> c]
W2C(x)   == IF x = 0 THEN 0 ELSE Div(x, x + H)
Or(a, b) == One - Mul(One - a, One - b)
Exp(v)   == IF v.f >= Half THEN Half + Mul(v.c, v.f - Half) ELSE Half - Mul(v.c, Half - v.f)
NearT(a, b) == Near(a.f, b.f) /\ Near(a.c, b.c)
Structural == TV(One, Reliance)

Deduction(v, w)    == LET f == Mul(v.f, w.f) IN TV(f, Mul(Mul(v.c, w.c), f))
Abduction(v, w)    == TV(w.f, W2C(Mul(Mul(v.f, v.c), w.c)))
Induction(v, w)    == Abduction(w, v)
Intersection(v, w) == TV(Mul(v.f, w.f), Mul(v.c, w.c))
Union(v, w)        == TV(Or(v.f, w.f), Mul(v.c, w.c))
Difference(v, w)   == TV(Mul(v.f, One - w.f), Mul(v.c, w.c))
Exemplification(v, w) == TV(One, W2C(Mul(Mul(v.f, w.f), Mul(v.c, w.c))))
Comparison(v, w)   == LET f0 == Or(v.f, w.f)
                      IN TV(IF f0 = 0 THEN 0 ELSE Div(Mul(v.f, w.f), f0), W2C(Mul(f0, Mul(v.c, w.c))))
Analogy(v, w)      == TV(Mul(v.f, w.f), Mul(Mul(v.c, w.c), w.f))
Resemblance(v, w)  == TV(Mul(v.f, w.f), Mul(Mul(v.c, w.c), Or(v.f, w.f)))
Conversion(v)      == TV(One, W2C(Mul(v.f, v.c)))
Negation(v)        == TV(One - v.f, v.c)
StructuralDeduction(v)        == Deduction(v, Structural)
StructuralDeductionNegated(v) == Negation(StructuralDeduction(v))
StructuralIntersection(v)     == Intersection(v, Structural)
DecomposePNN(v, w) == LET fn == Mul(v.f, One - w.f) IN TV(One - fn, Mul(fn, Mul(v.c, w.c)))
DecomposeNPP(v, w) == LET f == Mul(One - v.f, w.f) IN TV(f, Mul(f, Mul(v.c, w.c)))
DecomposePNP(v, w) == LET f == Mul(v.f, One - w.f) IN TV(f, Mul(f, Mul(v.c, w.c)))
DecomposePPP(v, w) == DecomposeNPP(Negation(v), w)
DecomposeNNN(v, w) == LET fn == Mul(One - v.f, One - w.f) IN TV(One - fn, Mul(fn, Mul(v.c, w.c)))
AnonymousAnalogy(v, w) == Analogy(v, TV(One, W2C(Mul(w.f, w.c))))
GoalDeduction(v, w) == LET r1 == Deduction(v, w)
                           r2 == Negation(Deduction(Negation(v), w))
                       IN IF r1.c >= r2.c THEN r1 ELSE r2
\* both of the two when their confidences cannot be told apart in fixed point
GoalDeductions(v, w) == LET r1 == Deduction(v, w)
                            r2 == Negation(Deduction(Negation(v), w))
                        IN IF Near(r1.c, r2.c) THEN {r1, r2} ELSE IF r1.c > r2.c THEN {r1} ELSE {r2}

\* revision: add the evidence amounts w = H*c/(1-c); the horizon cancels out
Revision(v, w) ==
  LET u1 == Mul(v.c, One - w.c)
      u2 == Mul(w.c, One - v.c)
      k  == Mul(One - v.c, One - w.c)
      u  == u1 + u2
  IN TV(IF u = 0 THEN v.f ELSE Min2(One, Div(Min2(u, Mul(u1, v.f) + Mul(u2, w.f)), u)),
        Min2(MaxConf, Max2(Max2(IF u = 0 THEN 0 ELSE Div(u, u + k), v.c), w.c)))

Eternalize(v) == TV(v.f, W2C(v.c))
Eternal == -1
Project(v, from, to) == IF from = Eternal THEN v ELSE TV(v.f, Mul(v.c, Pow(Decay, Abs(to - from))))
=============================================================================
