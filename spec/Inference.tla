----------------------------- MODULE Inference -----------------------------
(* What follows from one premise, or from two with disjoint evidence (C09):  *)
(* the conclusions of all rules that apply, in both orders of the premises,  *)
(* and of the inferences with implications, brought to canonical form.       *)
EXTENDS Conclusions, TruthLaws, Rules
Capitals == {"A", "B", "C", "M", "P", "R", "S"}
\* ---- rules
RECURSIVE Ask(_, _)
\* what the pattern p requires of its capital letters to become t: a set of pairs
Ask(p, t) == IF Leaf(p) THEN IF p[1] \in Capitals THEN {<<p[1], t>>} ELSE IF p = t THEN {} ELSE {Mismatch}
             ELSE IF Len(p) # Len(t) \/ p[1] # t[1] THEN {Mismatch}
             ELSE IF Len(p) = 2 THEN Ask(p[2], t[2]) ELSE Ask(p[2], t[2]) \cup Ask(p[3], t[3])
Fitting(n) == /\ Mismatch \notin n
              /\ \A p \in n : p[2] # <<End>>
              /\ \A p \in n, q \in n : p[1] = q[1] => p = q
RECURSIVE Fill(_, _)
Fill(c, n) == IF Leaf(c) THEN IF c[1] \in Capitals THEN (CHOOSE p \in n : p[1] = c[1])[2] ELSE c
              ELSE IF Len(c) = 2 THEN <<c[1], Fill(c[2], n)>> ELSE <<c[1], Fill(c[2], n), Fill(c[3], n)>>
Reduce(t) == LET ks == { k \in 1..Len(Reductions) : Fitting(Ask(Reductions[k][1], t)) /\ Fits(Fill(Reductions[k][2], Ask(Reductions[k][1], t))) }
             IN IF ks = {} THEN t
                ELSE LET k == CHOOSE x \in ks : \A y \in ks : x <= y IN Fill(Reductions[k][2], Ask(Reductions[k][1], t))
With2(ts, v) == { [t |-> ts[k], f |-> v.f, c |-> v.c] : k \in 1..Len(ts) }
ByName(f, v, w) == CHOOSE x \in Values(f, v, w) : TRUE
\* the conclusions of rule r when the requirements n are met
Follow(r, n, v) ==
  IF ~Fitting(n) THEN {}
  ELSE LET c == Fill(r[4], n) IN IF Fits(c) THEN With2(Derived(Reduce(c), r[6], FALSE), v) ELSE {}
ByRule(r, t, v, u, w) ==
  Follow(r, Ask(r[2], t) \cup Ask(r[3], u), ByName(r[5], v, w)) \cup Follow(r, Ask(r[2], u) \cup Ask(r[3], t), ByName(r[5], w, v))
\* a quick test of the outermost operators
May(p, t) == Leaf(p) \/ p[1] = t[1]
ByRules(t, v, u, w) ==
  UNION { ByRule(InferenceRules[k], t, v, u, w) :
          k \in { k \in 1..Len(InferenceRules) : LET r == InferenceRules[k] IN
                    r[1] = 2 /\ ((May(r[2], t) /\ May(r[3], u)) \/ (May(r[2], u) /\ May(r[3], t))) } }
FromOne(t, v) ==
  UNION { LET r == InferenceRules[k] IN Follow(r, Ask(r[2], t), ByName(r[5], v, v)) :
          k \in { k \in 1..Len(InferenceRules) : InferenceRules[k][1] = 1 } }
\* ---- with implications, equivalences and conjunctions: t is matched with a part of u
Says(t, v) == IF Fits(t) THEN With2(SelectSeq(<<t>>, Admissible), v) ELSE {}
\* u applied to t, with the part p matching t, concludes q
Apply(p, t, q, v) == LET m == Match(p, t) IN IF m.ok THEN Says(Subst(q, m.map), v) ELSE {}
With(t, v, u, w) ==
  (IF Is(u, Imp) \/ Is(u, Equ)
   THEN Apply(L(u), t, R(u), IF Is(u, Imp) THEN Deduction(w, v) ELSE Analogy(w, v))
        \cup Apply(R(u), t, L(u), IF Is(u, Imp) THEN Abduction(w, v) ELSE Analogy(w, v))
        \cup (IF Is(u, Imp) /\ Is(L(u), Conj)
              THEN LET a == L(L(u))  b == R(L(u))
                       met == IF Matches(a, t) THEN a ELSE b
                       rest == IF Matches(a, t) THEN b ELSE a
                   IN IF Fits(<<Imp, rest, R(u)>>) THEN Apply(met, t, <<Imp, rest, R(u)>>, Deduction(w, v)) ELSE {}
              ELSE {})
   ELSE {})
  \cup (IF Is(u, Conj) THEN Apply(L(u), t, R(u), AnonymousAnalogy(w, v)) ELSE {})
FromTwo(t, v, u, w) == ByRules(t, v, u, w) \cup With(t, v, u, w) \cup With(u, w, t, v)
=============================================================================
