------------------------------- MODULE Unify -------------------------------
(* Matching a pattern with a term, and substitution (C08).                   *)
(* A matcher is a function from variables to terms; Nums maps atoms that     *)
(* stand for measured values to [m |-> what is measured, v |-> value 1e-8].  *)
EXTENDS Fixed, Terms
CONSTANT Nums      \* (overridable operator: the measured values known)
NumAtoms == DOMAIN Nums
Similar(a, b) == a \in NumAtoms /\ b \in NumAtoms /\ Nums[a].m = Nums[b].m

\* what the pattern g requires of its variables V to become s: a set of pairs, with FALSE for a mismatch.
\* numeric: whether different values of one measurement match as well
Mismatch == <<"!", NoTerm>>
RECURSIVE Needs(_, _, _, _)
Needs(g, s, V, numeric) ==
  IF Leaf(g) THEN IF g[1] \in V THEN {<<g[1], s>>}
                  ELSE IF g = s THEN {}
                  ELSE IF numeric /\ Leaf(s) /\ Similar(g[1], s[1]) THEN {}
                  ELSE {Mismatch}
  ELSE IF Len(g) # Len(s) \/ g[1] # s[1] THEN {Mismatch}
  ELSE IF Len(g) = 2 THEN Needs(g[2], s[2], V, numeric)
  ELSE Needs(g[2], s[2], V, numeric) \cup Needs(g[3], s[3], V, numeric)
\* nothing is substituted for a set's end, and no variable for a query variable
Allowed(p) == /\ p # Mismatch
              /\ p[2] # <<End>>
              /\ p[1] \in QueryVars => ~(Leaf(p[2]) /\ p[2][1] \in Vars)
NoMatch == [ok |-> FALSE, map |-> [v \in {} |-> NoTerm]]
MatchV(g, s, V, numeric) ==
  LET n == Needs(g, s, V, numeric)
  IN IF (\A p \in n : Allowed(p)) /\ Cardinality({ p[1] : p \in n }) = Cardinality(n)
     THEN [ok |-> TRUE, map |-> [v \in { p[1] : p \in n } |-> (CHOOSE p \in n : p[1] = v)[2]]]
     ELSE NoMatch
Match(g, s) == MatchV(g, s, Vars, FALSE)
Matches(g, s) == Match(g, s).ok

\* confidence left after matching different values of the same measurement
Closeness(a, b, dist) == Max2(0, One - Div2(Abs(Nums[a].v - Nums[b].v), dist))
RECURSIVE Discount(_, _, _, _)
Discount(g, s, c, dist) ==
  IF Leaf(g) THEN IF g # s /\ Leaf(s) /\ g[1] \notin Vars /\ Similar(g[1], s[1]) THEN Mul(c, Closeness(g[1], s[1], dist)) ELSE c
  ELSE IF Len(g) = 2 THEN Discount(g[2], s[2], c, dist)
  ELSE Discount(g[3], s[3], Discount(g[2], s[2], c, dist), dist)
\* matching with a truth value to be discounted: [ok, map, c]
MatchDiscountedV(g, s, c, dist, V) ==
  LET m == MatchV(g, s, V, c # 0)
      d == IF m.ok /\ c # 0 THEN Discount(g, s, c, dist) ELSE c
  IN IF m.ok /\ (c # 0 => d > 0) THEN [ok |-> TRUE, map |-> m.map, c |-> d] ELSE [ok |-> FALSE, map |-> m.map, c |-> 0]

MatchDiscounted(g, s, c, dist) == MatchDiscountedV(g, s, c, dist, Vars)

\* terms are kept in a binary tree of TermSize places
RECURSIVE FitsAt(_, _, _)
FitsAt(t, i, n) == i < n /\ (Len(t) > 1 => FitsAt(t[2], 2*i + 1, n)) /\ (Len(t) > 2 => FitsAt(t[3], 2*i + 2, n))
Fits(t) == FitsAt(t, 0, 64)
=============================================================================
