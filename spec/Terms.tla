------------------------------- MODULE Terms -------------------------------
(* Terms as nested tuples: <<"a">> an atom, <<"op", l>> and <<"op", l, r>>   *)
(* compounds; the copulas carry the names the system uses internally.        *)
EXTENDS Integers, Sequences, FiniteSets
NoTerm == <<"-">>
Inh == ":"  Sim == "="  Imp == "?"  Equ == "^"  TImp == "$"  Seq2 == "+"  Prod == "*"
Conj == ";"  Disj == "_"  Neg == "!"  ExtSet == "\""  IntSet == "'"  Elem == "."  End == "@"  Prop == ","
Leaf(t)  == Len(t) = 1
Bin(t)   == Len(t) = 3
Op(t)    == t[1]
IsOp(t, c) == Bin(t) /\ t[1] = c
L(t) == IF Len(t) > 1 THEN t[2] ELSE NoTerm
R(t) == IF Len(t) > 2 THEN t[3] ELSE NoTerm
RECURSIVE Atoms(_)
Atoms(t) == IF Leaf(t) THEN {t[1]} ELSE IF Len(t) = 2 THEN {t[1]} \cup Atoms(t[2]) ELSE {t[1]} \cup Atoms(t[2]) \cup Atoms(t[3])
RECURSIVE Leaves(_)
Leaves(t) == IF Leaf(t) THEN {t[1]} ELSE IF Len(t) = 2 THEN Leaves(t[2]) ELSE Leaves(t[2]) \cup Leaves(t[3])
RECURSIVE Complexity(_)
Complexity(t) == IF Leaf(t) THEN (IF t = NoTerm THEN 0 ELSE 1) ELSE IF Len(t) = 2 THEN 1 + Complexity(t[2]) ELSE 1 + Complexity(t[2]) + Complexity(t[3])

Digits == {"1","2","3","4","5","6","7","8","9"}
DepVars   == {"#1","#2","#3","#4","#5","#6","#7","#8","#9"}
IndepVars == {"$1","$2","$3","$4","$5","$6","$7","$8","$9"}
QueryVars == {"?1","?2","?3","?4","?5","?6","?7","?8","?9"}
Vars == DepVars \cup IndepVars \cup QueryVars
HasVar(t)    == Atoms(t) \cap Vars # {}
HasVarIn(t, V) == Atoms(t) \cap V # {}

RECURSIVE Subst(_, _)
\* replace the variables in the domain of s
Subst(t, s) == IF Leaf(t) THEN (IF t[1] \in DOMAIN s THEN s[t[1]] ELSE t)
               ELSE IF Len(t) = 2 THEN <<t[1], Subst(t[2], s)>>
               ELSE <<t[1], Subst(t[2], s), Subst(t[3], s)>>

\* operations: ^op or <({SELF} * x) --> ^op>
OpAtoms == {"^left","^right","^up","^down","^say","^pick","^drop","^go","^activate","^deactivate","^a","^b","^c","^d","^e","^f","^goto","^op1","^op2"}
IsOperator(t) == Leaf(t) /\ t[1] \in OpAtoms
IsOperation(t) == \/ IsOperator(t)
                  \/ IsOp(t, Inh) /\ IsOperator(t[3]) /\ IsOp(t[2], Prod) /\ t[2][2][1] = ExtSet
RECURSIVE WithoutOp(_)
\* the antecedent without the operations at its end
WithoutOp(t) == IF IsOp(t, Seq2) /\ IsOperation(t[3]) THEN WithoutOp(t[2]) ELSE t
OpOf(t) == IF IsOperator(t) THEN t[1] ELSE t[3][1]   \* operator of an operation
RECURSIVE OpAtom(_)
OpAtom(t) == IF IsOp(t, Seq2) THEN (IF IsOp(t[3], Seq2) THEN "-" ELSE OpAtom(t[3])) ELSE IF IsOperation(t) THEN OpOf(t) ELSE "-"

\* the index by atoms: the atoms of a term that a concept is found by
Depth == 5   \* levels of a term the index covers (it treats the equivalence copula like an atom)
Copulas == {Inh, Sim, Imp, TImp, Seq2, Prod, Conj, Disj, Neg, ExtSet, IntSet, Elem, End, Prop, "&", "|", "/", "%", "\\", "#", "-", "~"}
RECURSIVE AtomsTo(_, _)
AtomsTo(t, d) == IF d = 0 THEN {} ELSE {t[1]} \cup UNION { AtomsTo(t[k], d - 1) : k \in 2..Len(t) }
Indexed(t) == AtomsTo(t, Depth) \ (Copulas \cup Vars)
\* a concept named u is considered for t
Related(t, u) == t = u \/ AtomsTo(t, Depth) \cap Indexed(u) # {}
=============================================================================
