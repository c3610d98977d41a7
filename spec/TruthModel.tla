----------------------------- MODULE TruthModel ----------------------------
(* The laws of the truth calculus on a grid of truth values (C10).           *)
EXTENDS TruthLaws
CONSTANTS Fs, Cs, Steps
VARIABLES v, w, d
Err == 20             \* of the fixed-point arithmetic
Grid == [f : Fs, c : Cs]
Init == v \in Grid /\ w \in Grid /\ d \in Steps
Next == UNCHANGED <<v, w, d>>
Spec == Init /\ [][Next]_<<v, w, d>>
Laws ==
  /\ \A n \in Unary  : \A r \in Values(n, v, w) : Proper(r) /\ r.c <= v.c + Err
  /\ \A n \in Binary : \A r \in Values(n, v, w) : Proper(r) /\ r.c <= v.c + Err /\ r.c <= w.c + Err
Revising == v.c + w.c > 0 =>
  LET r == Revision(v, w)  s == Revision(w, v)
  IN /\ Proper(r) /\ r.c >= v.c /\ r.c >= w.c
     /\ Abs(r.f - s.f) <= Err /\ Abs(r.c - s.c) <= Err
     /\ r.f >= Min2(v.f, w.f) - 400 /\ r.f <= Max2(v.f, w.f) + 400    \* (little evidence: large relative error)
Timing ==
  /\ Project(v, Eternal, d) = v
  /\ LET p == Project(v, 100, 100 + d)  b == Project(v, 100 + d, 100)
     IN p = b /\ p.f = v.f /\ p.c <= v.c /\ (d = 0 => p = v)
        /\ (d > 0 => Abs(p.c - Mul(Project(v, 100, 99 + d).c, Decay)) <= Err)
  /\ Eternalize(v).f = v.f /\ Eternalize(v).c <= v.c + Err
\* the functions with a symmetric definition
Symmetric == \A n \in {"Deduction", "Intersection", "Union", "Comparison", "Resemblance", "Exemplification"} :
   \A r \in Values(n, v, w), s \in Values(n, w, v) : Abs(r.f - s.f) <= Err /\ Abs(r.c - s.c) <= Err
=============================================================================
