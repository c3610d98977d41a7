---------------------------- MODULE Anticipation ---------------------------
(* Predictions by learned implications, and the evidence against them that   *)
(* each of them brings (C19).  Memory is given as functions of concept       *)
(* identities: con (terms), spk (latest belief events), lnk (tables of       *)
(* implications by operation, 0 for none, -1 for declarative ones).          *)
EXTENDS Events, Unify
CONSTANTS Anticipated,     \* least expectation of a prediction
          FailureConf,     \* confidence of the failure assumed
          WeakConf         \* predictions from refuted implications are made below this confidence

TableOf(lnk, c, op) == IF c \in DOMAIN lnk /\ op \in DOMAIN lnk[c] THEN { lnk[c][op][k] : k \in 1..Len(lnk[c][op]) } ELSE {}
Valid(con, imp) == imp.src \in DOMAIN con

\* the operation that ends a sequence, or a sequence of several
RECURSIVE OpsIn(_), SeqOf(_)
OpsIn(t) == IF IsOp(t, Seq2) THEN OpsIn(t[2]) \o OpsIn(t[3]) ELSE IF IsOperation(t) THEN <<t>> ELSE <<>>
SeqOf(s) == IF s = <<>> THEN NoTerm ELSE IF Len(s) = 1 THEN s[1] ELSE <<Seq2, SeqOf(SubSeq(s, 1, Len(s)-1)), s[Len(s)]>>
OpTerm(t) == IF IsOperation(t) THEN t ELSE IF IsOp(t, Seq2) /\ IsOperation(t[3]) THEN SeqOf(OpsIn(t)) ELSE NoTerm

\* does what was done (operation done, of table op) suit the implication, given the event e of its antecedent?
Suits(imp, e, op, done) ==
  op <= 0 \/ \E m \in {Match(WithoutOp(imp.t[2]), e.t)} :
               m.ok /\ \E o \in {Subst(OpTerm(imp.t[2]), m.map)} : Fits(o) /\ Matches(o, done)
\* who predicts: <<concept, implication>>
Predictors(con, spk, lnk, op, done) ==
  UNION { { <<c, i>> : i \in { j \in TableOf(lnk, c, op) : Valid(con, j) /\ j.src \in DOMAIN spk /\ Suits(j, spk[j.src], op, done) } } : c \in DOMAIN con }

\* time offsets are in 1/1000; the set of whole steps they may stand for
Steps(dt) == { Max2(0, (dt - 1) \div 1000), (dt + 1) \div 1000 }
Rounded(dt) == { (dt + 499) \div 1000, (dt + 501) \div 1000 }

\* what e (with the operation done now, if op > 0) and imp predict
Component(e, op, now) == IF op <= 0 THEN e ELSE
  LET r == Intersection(Project(Tv(e), e.o, now), TV(One, 90000000)) IN [e EXCEPT !.f = r.f, !.c = r.c, !.o = now]
Predictions(e, imp, op, now) ==
  LET d == Component(e, op, now)
      r == Deduction(TV(imp.f, imp.c), Tv(d))
  IN { [e EXCEPT !.t = imp.t[3], !.f = r.f, !.c = r.c, !.st = Stamp(e.st, imp.st), !.o = d.o + k, !.cx = -1] : k \in Steps(imp.dt) }
\* predictions that count: all declarative ones, the expected ones, and weak ones of refuted implications
MayCount(p, decl)  == decl \/ Exp(Tv(p)) >= Anticipated - Tol \/ (p.c <= WeakConf + Tol /\ p.f = 0)
MustCount(p, decl) == decl \/ Exp(Tv(p)) > Anticipated + Tol \/ (p.c < WeakConf - Tol /\ p.f = 0)

\* the evidence against imp when it predicts from e
Failures(e, imp) == { [imp EXCEPT !.f = 0, !.c = W2C(W2C(Mul(Mul(e.f, Project(Tv(e), 0, k).c), FailureConf))), !.st = <<>>] : k \in Rounded(imp.dt) }

\* the concept the antecedent is kept in may be more general than its event
Effect(con, imp, e, p) == LET m == Match(con[imp.src], e.t)
                          IN IF m.ok /\ Fits(Subst(p.t, m.map)) THEN {[p EXCEPT !.t = Subst(@, m.map)]} ELSE {}
\* (lists of equal length; an implication's list may hold a number twice, see the finding about C01)
SameEvidence(s, r) == Len(s) = Len(r) /\ { s[i] : i \in 1..Len(s) } \subseteq { r[i] : i \in 1..Len(r) }
\* what becomes of the predicted (or, declaratively, of the current) belief old
Updated(old, p, e, imp, decl) ==
  IF ~Disjoint(e.st, imp.st) \/ (decl /\ old.ty # "-" /\ SameEvidence(old.st, p.st)) THEN {old} ELSE RevisionAndChoice(old, p)
=============================================================================
