------------------------------ MODULE Decision -----------------------------
(* Decision making (C12): which operation is executed for a goal, and why.   *)
(* Memory is given as functions of concept identities: con (terms), spk      *)
(* (latest belief events), gsp (goals held), lnk (tables of implications by  *)
(* operation); ops is the list of the registered operations [t, args].       *)
EXTENDS Goals
CONSTANTS Threshold,      \* least expectation to act on an implication
          Suppression,    \* babbling gives way to a candidate above this
          GoalAge, EventAge,        \* what counts as a recent goal, a recent event
          RefutedC, RefutedF        \* what counts as refuted

Self == <<"SELF">>
Tables(lnk, c, op) == IF c \in DOMAIN lnk /\ op \in DOMAIN lnk[c] THEN { lnk[c][op][k] : k \in 1..Len(lnk[c][op]) } ELSE {}
\* a link counts while the concept of its antecedent lives
Lives(con, imp) == imp.src \in DOMAIN con

\* the operations in an antecedent, in order, as one sequence
RECURSIVE Ops(_)
Ops(t) == IF IsOp(t, Seq2) THEN Ops(t[2]) \o Ops(t[3]) ELSE IF IsOperation(t) THEN <<t>> ELSE <<>>
LastOperation(t) == IF IsOp(t, Seq2) /\ IsOperation(t[3]) THEN t[3] ELSE NoTerm
Arguments(op) == IF IsOp(op, Inh) THEN op[2] ELSE NoTerm
\* operations are done by the system itself
OwnAction(op) == Arguments(op) = NoTerm \/ (Len(Arguments(op)[2]) > 1 /\ Arguments(op)[2][2] = Self)

\* candidates for goal g at concept c: an implication, made specific by a concept whose event fulfils its precondition
Specific(con, g, c, imp, d) ==
  LET m1 == Match(con[c], g.t)
      t1 == Subst(imp.t, m1.map)
      m2 == Match(WithoutOp(t1[2]), con[d])
  IN Subst(t1, m2.map)
IsCandidate(con, g, c, imp, d) ==
  \E m1 \in {Match(con[c], g.t)} : m1.ok /\ \E t1 \in {Subst(imp.t, m1.map)} :
    /\ Fits(t1)
    /\ \E left \in {WithoutOp(t1[2])} : Related(left, con[d]) /\
         \E m2 \in {Match(left, con[d])} : m2.ok /\ \E t2 \in {Subst(t1, m2.map)} :
            Fits(t2) /\ (HasVar(con[c]) /\ HasVar(g.t) => ~HasVarIn(t2, IndepVars))
Situations(con, spk) == { d \in DOMAIN spk : ~HasVar(con[d]) }
Candidates(con, spk, lnk, nops, g, c) ==
  UNION { { <<op, imp, d>> : imp \in { i \in Tables(lnk, c, op) : Lives(con, i) }, d \in Situations(con, spk) } : op \in 1..nops }
CandidateSet(con, spk, lnk, nops, g, c) == { x \in Candidates(con, spk, lnk, nops, g, c) : IsCandidate(con, g, c, x[2], x[3]) }

\* expected fulfilment of g by imp, now, given the event e of its precondition (a set, where confidences cannot be told apart)
Wanted(g, imp) == { [g EXCEPT !.f = r.f, !.c = r.c, !.st = Stamp(g.st, imp.st)] : r \in GoalDeductions(Tv(g), TV(imp.f, imp.c)) }
Fulfilments(g, imp, e, now) == UNION { Advance([w EXCEPT !.o = now], e, now) : w \in Wanted(g, imp) }
Desires(g, imp, e, now) == { Exp(Tv(r)) : r \in Fulfilments(g, imp, e, now) }

\* what doing opterm brings about for all recent goals: <<goal concept, implication>> that count
Outcomes(con, spk, gsp, lnk, op, operation, now) ==
  UNION { { <<c, imp>> : imp \in { i \in Tables(lnk, c, op) :
              /\ Lives(con, i) /\ i.src \in DOMAIN spk /\ now - spk[i.src].o < EventAge
              /\ Ops(i.t[2]) = operation } } :
            c \in { d \in DOMAIN gsp : now - gsp[d].o < GoalAge } }
\* add one of them to the overall outcome (events whose confidences must not be taken for equal get different cx)
Distinct(e, n) == [e EXCEPT !.cx = n]
AddOutcome(acc, g, imp, e, now) ==
  UNION { UNION { RevisionAndChoice(Distinct(a, -1), Distinct([r EXCEPT !.t = WithoutOp(imp.t[2]), !.ty = "g"], -2)) : a \in acc } : r \in Fulfilments(g, imp, e, now) }
Good(acc) == \E a \in acc : Exp(Tv(a)) >= Half - Tol
Bad(acc)  == \E a \in acc : a.ty # "-" /\ Exp(Tv(a)) < Half + Tol

\* the specific case of a general implication may be known to fail
KnownCases(con, lnk, op, t) == UNION { { i \in Tables(lnk, c, op) : i.t = t } : c \in { d \in DOMAIN con : con[d] = t[3] } }
MaybeRefuted(cases)  == \E i \in cases : i.c > RefutedC - Tol /\ i.f < RefutedF + Tol
SurelyRefuted(cases) == \E i \in cases : i.c > RefutedC + Tol /\ i.f < RefutedF - Tol

NoDecision == [run |-> FALSE, desire |-> 0]
\* all of it for one situation: a set of decisions for goal g at concept c (outcomes taken in some order)
RECURSIVE Effect(_, _, _, _, _)
Effect(acc, os, gsp, spk, now) == IF os = {} THEN acc ELSE LET o == CHOOSE x \in os : TRUE
                                                          IN Effect(AddOutcome(acc, gsp[o[1]], o[2], spk[o[2].src], now), os \ {o}, gsp, spk, now)
Evaluate(con, spk, gsp, lnk, g, c, x, now) ==
  LET t == Specific(con, g, c, x[2], x[3])
      o == LastOperation(t[2])
      acc == Effect({NoEvent}, Outcomes(con, spk, gsp, lnk, x[1], Ops(t[2]), now), gsp, spk, now)
      refuted == HasVar(x[2].t) /\ SurelyRefuted(KnownCases(con, lnk, x[1], t))
  IN IF ~OwnAction(o) \/ refuted \/ ~Good(acc) THEN {} ELSE { [run |-> TRUE, op |-> x[1], t |-> t, by |-> x, desire |-> d] : d \in Desires(g, x[2], spk[x[3]], now) }
Decisions(con, spk, gsp, lnk, nops, g, c, now) ==
  LET all == { d \in UNION { Evaluate(con, spk, gsp, lnk, g, c, x, now) : x \in CandidateSet(con, spk, lnk, nops, g, c) } : d.desire >= Threshold }
      top == { d \in all : \A e \in all : e.desire <= d.desire }
  IN IF top = {} THEN {NoDecision} ELSE top

\* babbling: one of the first enabled operations with one of its declared arguments
Babbles(ops, enabled, d) ==
  /\ d.op \in 1..Min2(enabled, Len(ops))
  /\ \/ d.args = NoTerm /\ ops[d.op].args = <<>>
     \/ \E k \in 1..Len(ops[d.op].args) : d.args = <<Prod, <<ExtSet, Self, <<End>>>>, ops[d.op].args[k]>>

\* the better of the decision made so far and a further one
Better(d, x) == IF ~x.run THEN {d} ELSE IF x.desire > d.desire + 1 THEN {x} ELSE IF x.desire = d.desire \/ x.desire = One THEN {x}
                ELSE IF x.desire >= d.desire - 1 THEN {d, x} ELSE {d}
Choice(babble, best) == IF ~babble.run \/ best.desire > Suppression + Tol THEN {best}
                        ELSE IF best.desire >= Suppression - Tol THEN {babble, best} ELSE {babble}
=============================================================================
