----------------------------- MODULE Conclusions ---------------------------
(* What becomes of a conclusion before it enters memory (C09, C24): it is    *)
(* generalized where its rule says so, and discarded when it says nothing    *)
(* new or is malformed.                                                      *)
EXTENDS Generalize
Plain == DepVars \cup IndepVars
Junction(t) == Is(t, Conj) \/ Is(t, Disj)
HasSimple(t) == SimpleIn(t) # <<>>
Mixed(t) == HasVarIn(t, Plain) /\ HasSimple(t)
RECURSIVE Count(_, _)
\* occurrences in t of the atoms and copulas in S
Count(S, t) == (IF t[1] \in S THEN 1 ELSE 0) + (IF Len(t) > 1 THEN Count(S, t[2]) ELSE 0) + (IF Len(t) > 2 THEN Count(S, t[3]) ELSE 0)
Repeats(s) == \E i \in 1..Len(s) : \E j \in i+1..Len(s) : s[i] = s[j]
RECURSIVE Everywhere(_, _)
\* all subterms at which an operator stands that is in C
Everywhere(t, C) == (IF Len(t) > 1 /\ t[1] \in C THEN {t} ELSE {})
                    \cup (IF Len(t) > 1 THEN Everywhere(t[2], C) ELSE {}) \cup (IF Len(t) > 2 THEN Everywhere(t[3], C) ELSE {})
Relational(t) == Is(L(t), Prod) /\ Is(L(L(t)), Prod) /\ Is(R(L(t)), Prod)
MentionsTwice(t) == (Is(t, Inh) \/ Is(t, Sim)) /\ ~Relational(t) /\ Repeats(SimpleIn(t))
Tautology(t) == (Is(t, Imp) \/ Is(t, Equ)) /\ L(t) = R(t)
Nested(t) == Count({Imp, Equ}, t) > 1 \/ Count({TImp}, t) > 2
PlainWithDep(t) == (Is(t, Inh) \/ Is(t, Sim)) /\ HasVarIn(t, DepVars)
RightNested(t) == \E j \in Everywhere(t, {Conj, Disj}) : Junction(R(j))
BadSets(t) == Is(t, Inh) /\ \/ Is(L(t), "&") /\ Is(L(L(t)), ExtSet) /\ Is(R(L(t)), ExtSet)
                            \/ Is(R(t), "|") /\ Is(L(R(t)), IntSet) /\ Is(R(R(t)), IntSet)
LoneVariable(t) == \E v \in Atoms(t) \cap Plain : Count({v}, t) = 1
RECURSIVE StartsWithOperation(_)
StartsWithOperation(c) == Is(c, Conj) /\ (IsOperation(L(c)) \/ StartsWithOperation(L(c)))
Procedural(t) == (Is(t, Imp) \/ Is(t, Equ)) /\ StartsWithOperation(L(t))
Admissible(t) == ~(MentionsTwice(t) \/ Tautology(t) \/ Nested(t) \/ PlainWithDep(t) \/ RightNested(t) \/ BadSets(t) \/ LoneVariable(t) \/ Procedural(t))

\* a generalization is useless if a statement in it says nothing about the others or mixes variables with atoms
IsVar(t) == Leaf(t) /\ t[1] \in Plain
BadStatement(t) ==
  LET s == L(t)  p == R(t)
      si == ImageOf(s, IntImages)   pi == Is(p, "/") \/ Is(s, "%")
  IN \/ s = p \/ (IsVar(s) /\ IsVar(p))
     \/ ~HasVarIn(t, Plain) \/ ~HasSimple(t)
     \/ (~si /\ ~pi /\ ~Is(s, Elem) /\ ~Is(p, Elem) /\ (Mixed(s) \/ Mixed(p)))
     \/ (si /\ (Mixed(L(s)) \/ Mixed(R(s))))
     \/ (pi /\ (Mixed(L(p)) \/ Mixed(R(p))))
RECURSIVE BadPart(_, _)
BadPart(t, first) == IF Len(t) > 1 /\ t[1] \in {Equ, Imp, Conj, Disj} THEN BadPart(L(t), FALSE) \/ BadPart(R(t), FALSE)
                     ELSE ~first /\ (Is(t, Inh) \/ Is(t, Sim)) /\ BadStatement(t)
Unbound(t) == (Is(t, Imp) \/ Is(t, Equ)) /\ ~HasVarIn(t, IndepVars)
Useful(g, t) == g.ok /\ g.t # t /\ ~BadPart(g.t, TRUE) /\ ~Unbound(g.t)
IfOnly(c, t) == IF c THEN <<t>> ELSE <<>>
\* what conclusion t leads to: intro: generalize, strict: only where two independent variables come of it
Forms(t, intro, strict) ==
  LET implication == Len(t) > 1 /\ t[1] \in {TImp, Imp, Equ}
      general(g) == IfOnly(Useful(g, t) /\ (~strict \/ "$2" \in Atoms(g.t)), g.t)
  IN IF intro /\ implication
     THEN general(GeneralImp(t, TRUE, 0))
          \o (IF strict THEN <<>> ELSE general(GeneralImp(t, FALSE, 0)))
          \o IfOnly(Is(t, TImp) /\ ~strict, t)
     ELSE IF intro /\ Is(t, Conj)
     THEN IfOnly(LET g == GeneralConj(t, TRUE) IN g.ok /\ g.t # t /\ ~BadPart(g.t, TRUE), GeneralConj(t, TRUE).t)
          \o IfOnly(LET g == GeneralConj(t, FALSE) IN g.ok /\ g.t # t /\ ~BadPart(g.t, TRUE), GeneralConj(t, FALSE).t)
     ELSE <<t>>
Derived(t, intro, strict) == SelectSeq(Forms(t, intro, strict), Admissible)
=============================================================================
