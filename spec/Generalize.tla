----------------------------- MODULE Generalize ----------------------------
(* Generalization (C24): variables in place of the atoms that an implication *)
(* or a conjunction mentions more than once, where they may be generalized.  *)
EXTENDS Unify
NotAtoms == Copulas \cup {Equ} \cup Vars
Simple(a) == a \notin NotAtoms
Is(t, c) == Len(t) > 1 /\ t[1] = c
ImageOf(t, c) == Is(t, c[1]) \/ Is(t, c[2])
IntImages == <<"\\", "#">>
ExtImages == <<"/", "%">>
RECURSIVE LeafSeq(_)
LeafSeq(t) == IF Leaf(t) THEN <<t[1]>> ELSE IF Len(t) = 2 THEN LeafSeq(t[2]) ELSE LeafSeq(t[2]) \o LeafSeq(t[3])
SimpleIn(t) == SelectSeq(LeafSeq(t), Simple)
\* ---- the mentions of atoms in a statement that count: those of its subject side (ext) or predicate side;
\*      side: only the left (1) or right (2) of a product; inner: below a statement; spatial: in a set of properties
RECURSIVE Mentions(_, _, _, _, _)
Mentions(t, ext, inner, spatial, side) ==
  LET again(u) == Mentions(u, ext, TRUE, spatial, side)
      s == L(t)  p == R(t)
      \* an image hides a relation on the one side and its other argument on the other
      subj == IF ImageOf(s, IntImages) THEN again(L(s))
              ELSE IF side # 0 /\ Is(s, Prod) THEN (IF side = 1 THEN again(L(s)) ELSE again(R(s)))
              ELSE again(s)
      subjOther == IF ImageOf(s, IntImages) THEN again(R(s)) ELSE <<>>
      pred == IF ImageOf(p, ExtImages) THEN again(L(p)) ELSE again(p)
      predOther == IF ImageOf(p, ExtImages) THEN again(R(p)) ELSE <<>>
      statement == Is(t, Inh) \/ Is(t, Sim) \/ (Is(t, Prop) /\ ~Is(s, Prod) /\ ext)
      several == (Is(t, ExtSet) \/ Is(t, IntSet)) /\ R(t) # <<End>>
  IN (IF statement /\ (ext \/ Is(t, Sim)) THEN subj \o predOther ELSE <<>>)
     \o (IF statement /\ (~ext \/ Is(t, Sim)) THEN pred \o subjOther ELSE <<>>)
     \o (IF (inner \/ spatial) /\ (spatial \/ ~several) THEN SimpleIn(t) ELSE <<>>)
RECURSIVE MentionsHO(_, _, _)
MentionsHO(t, ext, side) ==
  IF Is(t, Neg) THEN MentionsHO(t[2], ext, side)
  ELSE IF Len(t) > 1 /\ t[1] \in {Seq2, Conj, TImp, Imp, Equ} THEN MentionsHO(L(t), ext, side) \o MentionsHO(R(t), ext, side)
  ELSE Mentions(t, ext, FALSE, Is(t, IntSet), side)
Times(a, s) == Cardinality({ i \in 1..Len(s) : s[i] = a })

\* ---- the atoms of a term, level by level
RECURSIVE Children(_)
Children(q) == IF q = <<>> THEN <<>> ELSE (IF Leaf(Head(q)) THEN <<>> ELSE Tail(Head(q))) \o Children(Tail(q))
RECURSIVE LevelOrder(_)
LevelOrder(q) == IF q = <<>> THEN <<>> ELSE [i \in 1..Len(q) |-> q[i][1]] \o LevelOrder(Children(q))
RECURSIVE FirstOf(_, _)
\* those of sequence s in set A, each once, in order of first appearance
FirstOf(s, A) == IF s = <<>> THEN <<>> ELSE IF Head(s) \in A THEN <<Head(s)>> \o FirstOf(Tail(s), A \ {Head(s)}) ELSE FirstOf(Tail(s), A)

IndepSeq == <<"$1","$2","$3","$4","$5","$6","$7","$8","$9">>
DepSeq   == <<"#1","#2","#3","#4","#5","#6","#7","#8","#9">>
\* variables of names that t does not use yet
FreeNames(t, names) == SelectSeq(names, LAMBDA n : n \notin Atoms(t))
Named(s, names) == [a \in { s[i] : i \in 1..Min2(Len(s), Len(names)) } |-> <<names[CHOOSE i \in 1..Len(s) : s[i] = a]>>]
RECURSIVE HasOperation(_)
HasOperation(t) == IF Is(t, Seq2) THEN HasOperation(L(t)) \/ HasOperation(R(t)) ELSE IsOperation(t)

NoGeneral == [ok |-> FALSE, t |-> NoTerm, map |-> [a \in {} |-> NoTerm]]
Introduced(t, indep, dep) ==
  LET i == FreeNames(t, IndepSeq)  d == FreeNames(t, DepSeq)
      order == LevelOrder(<<t>>)
      m == [a \in (DOMAIN Named(FirstOf(order, indep), i)) \cup DOMAIN Named(FirstOf(order, dep), d) |->
              IF a \in indep THEN Named(FirstOf(order, indep), i)[a] ELSE Named(FirstOf(order, dep), d)[a]]
  IN IF d = <<>> \/ (i = <<>> /\ ~Is(t, Conj)) THEN NoGeneral ELSE [ok |-> TRUE, t |-> Subst(t, m), map |-> m]
\* an implication: what both sides mention becomes independent, what one mentions repeatedly dependent, except
\* {SELF} in an antecedent with operations
GeneralImp(t, ext, side) ==
  LET l == MentionsHO(L(t), ext, side)  r == MentionsHO(R(t), ext, side)
      ls == { l[i] : i \in 1..Len(l) }  rs == { r[i] : i \in 1..Len(r) }
      dep == { a \in (ls \cup rs) \ (ls \cap rs) : Times(a, l) > 1 \/ Times(a, r) > 1 }
      agent == IF ext /\ HasOperation(L(t)) THEN ls \cap {"SELF"} ELSE {}
  IN Introduced(t, ls \cap rs, dep \ agent)
GeneralConj(t, ext) ==
  LET m == MentionsHO(t, ext, 0) IN Introduced(t, {}, { a \in { m[i] : i \in 1..Len(m) } : Times(a, m) > 1 })
=============================================================================
