---------------------------- MODULE GrammarModel ---------------------------
(* The grammar's design, over all terms built from a few atoms and all       *)
(* copulas (C07): writing and reading are inverse, however a term is written.*)
EXTENDS Grammar
CONSTANTS Names, Rounds
VARIABLES t, d
Leafs == { <<a>> : a \in Names }
Sets == {ExtSet, IntSet}
Signs == [c \in {Inh, TImp, Equ, Disj, Seq2, Prop, Imp, Conj, Sim, "/", "%", "\\", "#", Prod, "&", "|", "-", "~"} |-> Written(c)]
Single0 == {Neg, Prod, Seq2, Sim}
Few == Leafs \cup { <<Inh, a, b>> : a \in Leafs, b \in Leafs \ {<<"a">>} } \cup { <<c, a, <<End>>>> : c \in {ExtSet, Neg}, a \in Leafs }
\* a term around s
Around1(s) == { <<c, s, <<End>>>> : c \in Sets } \cup { <<c, s, <<End>>>> : c \in Single0 }
Around2(s, x) == { <<c, s, x>> : c \in Sets \cup DOMAIN Signs } \cup { <<c, x, s>> : c \in Sets \cup DOMAIN Signs }
Init == t \in Leafs /\ d = 0
Next == /\ d < Rounds /\ d' = d + 1
        /\ t' \in Around1(t) \cup UNION { Around2(t, x) : x \in (IF d = 0 THEN Leafs ELSE Few) }
Spec == Init /\ [][Next]_<<t, d>>
\* other ways of writing a term: the copula in front; with commas
RECURSIVE Front(_, _)
Items(x, sep) == Front(x[2], sep) \o (IF Len(x) = 3 /\ x[3] # <<End>> THEN sep \o Front(x[3], sep) ELSE "")
Front(x, sep) == IF Leaf(x) THEN Written(x[1])
                 ELSE IF x[1] = ExtSet THEN "{" \o Items(x, sep) \o "}"
                 ELSE IF x[1] = IntSet THEN "[" \o Items(x, sep) \o "]"
                 ELSE IF x[1] = Neg THEN "(--" \o sep \o Items(x, sep) \o ")"
                 ELSE "(" \o Signs[x[1]] \o sep \o Items(x, sep) \o ")"
Renaming == ("$1" :> "$x") @@ ("#1" :> "#any") @@ ("$2" :> "$1") @@ ("#2" :> "#1")
BackAndForth == /\ Term(Show(t)) = Normal(t)
                /\ Term(Show(Normal(t))) = Normal(t)     \* with which Show is one-to-one
EveryWay == /\ Term(Front(t, " ")) = Normal(t)
            /\ Term(Front(t, ",")) = Normal(t)
            /\ Term(Front(t, " , ")) = Normal(t)
NamesDoNotMatter == /\ Normal(Normal(t)) = Normal(t)
                    /\ Normal(Rename(t, Renaming)) = Normal(t)
                    /\ Term(Show(Rename(t, Renaming))) = Normal(t)
\* variables are neither merged nor split
VarsOf(x) == { v \in { ByLevel(<<x>>)[i] : i \in 1..Len(ByLevel(<<x>>)) } : IsVarName(v) }
Kept == Cardinality(VarsOf(t)) = Cardinality(VarsOf(Normal(t)))
=============================================================================
