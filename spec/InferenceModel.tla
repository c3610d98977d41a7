--------------------------- MODULE InferenceModel --------------------------
(* Laws of inference, for all pairs of premises of a small language (C09).   *)
EXTENDS Inference
CONSTANTS Names, Kinds,     \* the atoms; the operators between statements
          Grid              \* truth values of the first premise
VARIABLES t, u, v, w
NoNums == [x \in {} |-> 0]
At == { <<x>> : x \in Names }
Small == At \cup { <<ExtSet, x, <<End>>>> : x \in At } \cup { <<Prod, x, y>> : x \in At, y \in At } \cup { <<"|", x, y>> : x \in At, y \in At }
Simples == { <<k, x, y>> : k \in {Inh, Sim}, x \in At, y \in At }
Stmts == Simples \cup { <<Inh, x, y>> : x \in Small, y \in At } \cup { <<Neg, s, <<End>>>> : s \in Simples }
Some3 == { s \in Simples : s[1] = Inh /\ s[2] # s[3] } \cup { <<Inh, <<"$1">>, x>> : x \in At }
Compounds == { <<k, x, y>> : k \in Kinds, x \in Some3, y \in Some3 } \cup { <<Imp, <<Conj, x, y>>, z>> : x \in Some3, y \in Some3, z \in { s \in Some3 : s[2] = <<"$1">> } }
Init == t \in Stmts \cup Compounds /\ u = NoTerm /\ v \in Grid /\ w = TV(90000000, 90000000)
Next == u = NoTerm /\ u' \in Stmts \cup Compounds /\ UNCHANGED <<t, v, w>>
Spec == Init /\ [][Next]_<<t, u, v, w>>
OneValue == { TV(70000000, 90000000) }
SomeValues == { TV(One, 90000000), TV(0, 50000000), TV(70000000, 99000000) }
C2 == FromTwo(t, v, u, w)
Known(a) == Atoms(a) \ (Copulas \cup Vars \cup {Equ})
Same(x, y) == x.t = y.t /\ Near(x.f, y.f) /\ Near(x.c, y.c)
\* the premises can come in either order
Symmetric == LET d == FromTwo(u, w, t, v) IN (\A x \in C2 : \E y \in d : Same(x, y)) /\ \A y \in d : \E x \in C2 : Same(x, y)
\* nothing is concluded about what was not mentioned, nor with more confidence than a premise has
Grounded == \A x \in C2 : Known(x.t) \subseteq Known(t) \cup Known(u) /\ x.c <= Min2(v.c, w.c) + Tol /\ x.f \in 0..One /\ Fits(x.t) /\ Admissible(x.t)
OneGrounded == \A x \in FromOne(t, v) : Known(x.t) \subseteq Known(t) /\ x.c <= v.c + Tol /\ Fits(x.t) /\ Admissible(x.t)
\* canonical forms are not more complex and stay as they are
Canonical == Complexity(Reduce(t)) <= Complexity(t) /\ Known(Reduce(t)) \subseteq Known(t) /\ Reduce(Reduce(t)) = Reduce(t)
\* what is not related leads to nothing
Related2 == C2 # {} => (Known(t) \cap Known(u) # {} \/ HasVar(t) \/ HasVar(u) \/ ~Is(t, Inh) \/ ~Is(u, Inh))
=============================================================================
