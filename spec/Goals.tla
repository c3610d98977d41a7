------------------------------- MODULE Goals -------------------------------
(* How goals give rise to subgoals: elements of a sequence goal one after    *)
(* the other (C14), and antecedents of learned implications (C23).           *)
(* Memory is given as functions of concept identities: con (terms), spikes   *)
(* (latest belief events), goals (goal held by the concept).                 *)
EXTENDS Events, Unify
CONSTANT Condition     \* least expectation for an element to count as fulfilled

RECURSIVE Elements(_)
Elements(t) == IF IsOp(t, Seq2) THEN Append(Elements(t[2]), t[3]) ELSE <<t>>

AtTime(e, now) == LET p == Project(Tv(e), e.o, now) IN [e EXCEPT !.f = p.f, !.c = p.c, !.o = now]
ExpAt(e, now) == Exp(Project(Tv(e), e.o, now))

\* {(a &/ b)!, a.} |- b!   (the goal is what remains of the sequence)
Advance(g, spike, now) ==
  { [g EXCEPT !.f = r.f, !.c = r.c, !.st = Stamp(spike.st, g.st), !.o = now] :
       r \in GoalDeductions(Tv(AtTime(g, now)), Tv(AtTime(spike, now))) }

\* the concepts whose latest event may fulfil the element t: [id, map, exp, sure]
Fulfilling(t, rest, last, con, spikes, now) ==
  { r \in { [id |-> i, m |-> Match(t, con[i]), exp |-> ExpAt(spikes[i], now)] :
              i \in { j \in DOMAIN spikes : ~HasVar(con[j]) /\ spikes[j].o >= last /\ Related(t, con[j]) } } :
      /\ r.m.ok
      /\ r.exp >= Condition - Tol
      /\ \A k \in 1..Len(rest) : Fits(Subst(rest[k], r.m.map)) }

\* possible outcomes of pursuing the elements es from the first on: a set of [done] or subgoals
Fulfilled == [done |-> TRUE]
Pursue(t, g) == [done |-> FALSE, t |-> t, e |-> g]
RECURSIVE Pursuits(_, _, _, _, _, _, _)
Pursuits(es, g, last, con, spikes, now, first) ==
  LET c == Fulfilling(es[1], Tail(es), last, con, spikes, now)
      sure == { r \in c : r.exp >= Condition + Tol }
      top == { r \in c : \A q \in c : q.exp <= r.exp + Tol }
      pending == IF first THEN LET s == StructuralDeduction(Tv(g)) IN Pursue(es[1], [g EXCEPT !.f = s.f, !.c = s.c])
                 ELSE Pursue(es[1], g)
  IN (IF sure = {} THEN {pending} ELSE {}) \cup
     UNION { IF Len(es) = 1 THEN {Fulfilled}
             ELSE UNION { Pursuits([k \in 1..Len(es)-1 |-> Subst(es[k+1], r.m.map)], h, spikes[r.id].o, con, spikes, now, FALSE) :
                            h \in Advance(g, spikes[r.id], now) } : r \in top }
\* a sequence goal g at time now
Decompose(g, con, spikes, now) == Pursuits(Elements(g.t), AtTime(g, now), -1, con, spikes, now, TRUE)

\* subgoal of the goal g by the implication imp (whose consequence must match it)
Antecedent(t, m) == WithoutOp(Subst(t, m)[2])
Subgoals(g, imp, now) ==
  LET m == Match(imp.t[3], g.t)
  IN { [t |-> Antecedent(imp.t, m.map), f |-> r.f, c |-> r.c, st |-> Stamp(g.st, imp.st), o |-> now] :
         r \in GoalDeductions(Tv(g), TV(imp.f, imp.c)) }
Applies(g, imp) == \E m \in {Match(imp.t[3], g.t)} : m.ok /\ Fits(Subst(imp.t, m.map))
=============================================================================
