----------------------------- MODULE UnifyModel ----------------------------
(* All pairs of a small pattern and a small term: matching succeeds exactly  *)
(* when an allowed assignment makes them identical, and returns it.          *)
EXTENDS Unify
VARIABLES g, s, step
Sets(T) == { <<ExtSet, x, <<End>>>> : x \in T }
Grow(T) == T \cup { <<Inh, x, y>> : x \in T, y \in T } \cup Sets(T)
P0 == { <<"a">>, <<"$1">>, <<"?1">> }
S0 == { <<"a">>, <<"$1">>, <<"b">> }
P1 == Grow(P0)
S1 == Grow(S0)
NoNums == [x \in {} |-> 0]
RECURSIVE Subterms(_)
Subterms(t) == {t} \cup (IF Len(t) > 1 THEN Subterms(t[2]) ELSE {}) \cup (IF Len(t) > 2 THEN Subterms(t[3]) ELSE {})
Init == g \in Grow(P1) /\ s \in Grow(S1) /\ step = 0
Next == step = 0 /\ step' = 1 /\ UNCHANGED <<g, s>>
Spec == Init /\ [][Next]_<<g, s, step>>
In(t) == Leaves(t) \cap Vars
Assignments == [In(g) -> Subterms(s)]
AllowedFor(a) == \A v \in DOMAIN a : Allowed(<<v, a[v]>>)
Complete == step = 0 \/ Matches(g, s) = \E a \in Assignments : AllowedFor(a) /\ Subst(g, a) = s
Sound    == step = 0 \/ (Matches(g, s) => Subst(g, Match(g, s).map) = s)
QueryOnly == step = 0 \/ LET m == MatchV(g, s, QueryVars, FALSE) IN m.ok => DOMAIN m.map \subseteq QueryVars /\ Subst(g, m.map) = s
=============================================================================
