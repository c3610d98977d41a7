-------------------------- MODULE GeneralizeModel --------------------------
(* All implications and conjunctions of small statements: generalizations    *)
(* are sound and complete, whatever is mentioned where.                      *)
EXTENDS Generalize
VARIABLES t, step
NoNums == [x \in {} |-> 0]
A0 == { <<"a">>, <<"b">>, <<"$1">>, <<"#2">> }
Inner == A0 \cup { <<ExtSet, <<"a">>, <<End>>>>, <<Prod, <<"a">>, <<"b">>>>, <<"/", <<"b">>, <<"a">>>>, <<"#", <<"a">>, <<"#2">>>> }
Statements == { <<Inh, x, y>> : x \in Inner, y \in Inner } \cup { <<Sim, x, y>> : x \in A0, y \in A0 } \cup { <<Neg, <<Inh, x, <<"b">>>>>> : x \in A0 }
Act == <<Inh, <<Prod, <<ExtSet, <<"SELF">>, <<End>>>>, <<"a">>>>, <<"^left">>>>
Lefts == Statements \cup { <<Seq2, <<Inh, x, y>>, Act>> : x \in Inner, y \in A0 }
                    \cup { <<Seq2, <<Inh, <<ExtSet, <<"SELF">>, <<End>>>>, y>>, Act>> : y \in A0 }
Init == step = 0 /\ t \in { <<c, x, y>> : c \in {TImp, Conj}, x \in Lefts, y \in Statements }
Next == step = 0 /\ step' = 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_<<t, step>>
Generals == IF Is(t, Conj) THEN { GeneralConj(t, TRUE), GeneralConj(t, FALSE) }
            ELSE { GeneralImp(t, e, s) : e \in {TRUE, FALSE}, s \in {0, 1, 2} }
Back(m) == [v \in { m[a][1] : a \in DOMAIN m } |-> <<CHOOSE a \in DOMAIN m : m[a][1] = v>>]
\* occurrences of an atom
RECURSIVE Occurs(_, _)
Occurs(a, u) == IF Leaf(u) THEN IF u[1] = a THEN 1 ELSE 0
                ELSE Occurs(a, u[2]) + (IF Len(u) > 2 THEN Occurs(a, u[3]) ELSE 0)
Sound == step = 0 \/ \A g \in Generals :
  g.ok =>
    /\ Subst(g.t, Back(g.map)) = t
    /\ \A a \in DOMAIN g.map :
         /\ Simple(a) /\ Occurs(a, t) > 1 /\ a \notin Atoms(g.t) /\ g.map[a][1] \notin Atoms(t)
         /\ g.map[a][1] \in IndepVars => Occurs(a, L(t)) > 0 /\ Occurs(a, R(t)) > 0
         /\ g.map[a][1] \in DepVars => Occurs(a, L(t)) > 1 \/ Occurs(a, R(t)) > 1 \/ Is(t, Conj)
    /\ \A a, b \in DOMAIN g.map : g.map[a] = g.map[b] => a = b
\* what is the subject of a statement on both sides becomes one independent variable
Subjects(u) == IF Is(u, Inh) /\ Leaf(L(u)) /\ Simple(L(u)[1]) THEN {L(u)[1]} ELSE {}
Complete == step = 0 \/ (Is(t, TImp) =>
  LET g == GeneralImp(t, TRUE, 0) IN g.ok => \A a \in Subjects(L(t)) \cap Subjects(R(t)) : a \in DOMAIN g.map /\ g.map[a][1] \in IndepVars)
=============================================================================
