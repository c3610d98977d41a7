------------------------------- MODULE Rules --------------------------------
(* The inference rules and reductions (C09).  Capital letters stand for any  *)
(* term.  Two: <<first premise, second premise, conclusion, truth function,  *)
(* whether the conclusion is generalized>>, each rule applies to the two     *)
(* premises in either order; One: <<premise, conclusion, truth function>>.   *)
EXTENDS Sequences
InferenceRules == <<
  <<2, <<":",<<"S">>,<<"M">>>>, <<":",<<"M">>,<<"P">>>>, <<":",<<"S">>,<<"P">>>>, "Deduction", FALSE>>,   \* (S --> M) , (M --> P) , (S --> P)
  <<2, <<":",<<"A">>,<<"B">>>>, <<":",<<"A">>,<<"C">>>>, <<":",<<"C">>,<<"B">>>>, "Induction", FALSE>>,   \* (A --> B) , (A --> C) , (C --> B)
  <<2, <<":",<<"A">>,<<"C">>>>, <<":",<<"B">>,<<"C">>>>, <<":",<<"B">>,<<"A">>>>, "Abduction", FALSE>>,   \* (A --> C) , (B --> C) , (B --> A)
  <<2, <<":",<<"A">>,<<"B">>>>, <<":",<<"B">>,<<"C">>>>, <<":",<<"C">>,<<"A">>>>, "Exemplification", FALSE>>,   \* (A --> B) , (B --> C) , (C --> A)
  <<2, <<"S">>, <<":",<<"S">>,<<"P">>>>, <<"P">>, "Deduction", FALSE>>,   \* S , (S --> P) , P
  <<2, <<"P">>, <<":",<<"S">>,<<"P">>>>, <<"S">>, "Abduction", FALSE>>,   \* P , (S --> P) , S
  <<1, <<"=",<<"S">>,<<"P">>>>, <<"-">>, <<"=",<<"P">>,<<"S">>>>, "StructuralIntersection", FALSE>>,   \* (S <-> P) , , (P <-> S)
  <<2, <<"=",<<"M">>,<<"P">>>>, <<"=",<<"S">>,<<"M">>>>, <<"=",<<"S">>,<<"P">>>>, "Resemblance", FALSE>>,   \* (M <-> P) , (S <-> M) , (S <-> P)
  <<2, <<":",<<"P">>,<<"M">>>>, <<":",<<"S">>,<<"M">>>>, <<"=",<<"S">>,<<"P">>>>, "Comparison", FALSE>>,   \* (P --> M) , (S --> M) , (S <-> P)
  <<2, <<":",<<"M">>,<<"P">>>>, <<":",<<"M">>,<<"S">>>>, <<"=",<<"S">>,<<"P">>>>, "Comparison", FALSE>>,   \* (M --> P) , (M --> S) , (S <-> P)
  <<2, <<":",<<"M">>,<<"P">>>>, <<"=",<<"S">>,<<"M">>>>, <<":",<<"S">>,<<"P">>>>, "Analogy", FALSE>>,   \* (M --> P) , (S <-> M) , (S --> P)
  <<2, <<":",<<"P">>,<<"M">>>>, <<"=",<<"S">>,<<"M">>>>, <<":",<<"P">>,<<"S">>>>, "Analogy", FALSE>>,   \* (P --> M) , (S <-> M) , (P --> S)
  <<2, <<"S">>, <<"=",<<"S">>,<<"P">>>>, <<"P">>, "Analogy", FALSE>>,   \* S , (S <-> P) , P
  <<2, <<"S">>, <<"=",<<"P">>,<<"S">>>>, <<"P">>, "Analogy", FALSE>>,   \* S , (P <-> S) , P
  <<1, <<":",<<"S">>,<<"\"",<<"P">>,<<"@">>>>>>, <<"-">>, <<"=",<<"S">>,<<"\"",<<"P">>,<<"@">>>>>>, "StructuralIntersection", FALSE>>,   \* (S --> {P}) , , (S <-> {P})
  <<1, <<":",<<"'",<<"S">>,<<"@">>>>,<<"P">>>>, <<"-">>, <<"=",<<"'",<<"S">>,<<"@">>>>,<<"P">>>>, "StructuralIntersection", FALSE>>,   \* ([S] --> P) , , ([S] <-> P)
  <<2, <<":",<<"\"",<<"M">>,<<"@">>>>,<<"P">>>>, <<"=",<<"S">>,<<"M">>>>, <<":",<<"\"",<<"S">>,<<"@">>>>,<<"P">>>>, "Analogy", FALSE>>,   \* ({M} --> P) , (S <-> M) , ({S} --> P)
  <<2, <<":",<<"P">>,<<"'",<<"M">>,<<"@">>>>>>, <<"=",<<"S">>,<<"M">>>>, <<":",<<"P">>,<<"'",<<"S">>,<<"@">>>>>>, "Analogy", FALSE>>,   \* (P --> [M]) , (S <-> M) , (P --> [S])
  <<1, <<"=",<<"\"",<<"A">>,<<"@">>>>,<<"\"",<<"B">>,<<"@">>>>>>, <<"-">>, <<"=",<<"A">>,<<"B">>>>, "StructuralIntersection", FALSE>>,   \* ({A} <-> {B}) , , (A <-> B)
  <<1, <<"=",<<"'",<<"A">>,<<"@">>>>,<<"'",<<"B">>,<<"@">>>>>>, <<"-">>, <<"=",<<"A">>,<<"B">>>>, "StructuralIntersection", FALSE>>,   \* ([A] <-> [B]) , , (A <-> B)
  <<1, <<":",<<"\"",<<"A">>,<<"B">>>>,<<"M">>>>, <<"-">>, <<":",<<"\"",<<"A">>,<<"@">>>>,<<"M">>>>, "StructuralDeduction", FALSE>>,   \* ({A B} --> M) , , <{A} --> M>
  <<1, <<":",<<"\"",<<"A">>,<<"B">>>>,<<"M">>>>, <<"-">>, <<":",<<"\"",<<"B">>,<<"@">>>>,<<"M">>>>, "StructuralDeduction", FALSE>>,   \* ({A B} --> M) , , <{B} --> M>
  <<1, <<":",<<"M">>,<<"'",<<"A">>,<<"B">>>>>>, <<"-">>, <<":",<<"M">>,<<"'",<<"A">>,<<"@">>>>>>, "StructuralDeduction", FALSE>>,   \* (M --> [A B]) , , <M --> [A]>
  <<1, <<":",<<"M">>,<<"'",<<"A">>,<<"B">>>>>>, <<"-">>, <<":",<<"M">>,<<"'",<<"B">>,<<"@">>>>>>, "StructuralDeduction", FALSE>>,   \* (M --> [A B]) , , <M --> [B]>
  <<1, <<":",<<"|",<<"S">>,<<"P">>>>,<<"M">>>>, <<"-">>, <<":",<<"S">>,<<"M">>>>, "StructuralDeduction", FALSE>>,   \* ((S | P) --> M) , , (S --> M)
  <<1, <<":",<<"M">>,<<"&",<<"S">>,<<"P">>>>>>, <<"-">>, <<":",<<"M">>,<<"S">>>>, "StructuralDeduction", FALSE>>,   \* (M --> (S & P)) , , (M --> S)
  <<1, <<":",<<"|",<<"S">>,<<"P">>>>,<<"M">>>>, <<"-">>, <<":",<<"P">>,<<"M">>>>, "StructuralDeduction", FALSE>>,   \* ((S | P) --> M) , , (P --> M)
  <<1, <<":",<<"M">>,<<"&",<<"S">>,<<"P">>>>>>, <<"-">>, <<":",<<"M">>,<<"P">>>>, "StructuralDeduction", FALSE>>,   \* (M --> (S & P)) , , (M --> P)
  <<1, <<":",<<"~",<<"A">>,<<"S">>>>,<<"M">>>>, <<"-">>, <<":",<<"A">>,<<"M">>>>, "StructuralDeduction", FALSE>>,   \* ((A ~ S) --> M) , , (A --> M)
  <<1, <<":",<<"M">>,<<"-",<<"B">>,<<"S">>>>>>, <<"-">>, <<":",<<"M">>,<<"B">>>>, "StructuralDeduction", FALSE>>,   \* (M --> (B - S)) , , (M --> B)
  <<1, <<":",<<"~",<<"A">>,<<"S">>>>,<<"M">>>>, <<"-">>, <<":",<<"S">>,<<"M">>>>, "StructuralDeductionNegated", FALSE>>,   \* ((A ~ S) --> M) , , (S --> M)
  <<1, <<":",<<"M">>,<<"-",<<"B">>,<<"S">>>>>>, <<"-">>, <<":",<<"M">>,<<"S">>>>, "StructuralDeductionNegated", FALSE>>,   \* (M --> (B - S)) , , (M --> S)
  <<2, <<":",<<"P">>,<<"M">>>>, <<":",<<"S">>,<<"M">>>>, <<":",<<"|",<<"P">>,<<"S">>>>,<<"M">>>>, "Intersection", FALSE>>,   \* (P --> M) , (S --> M) , ((P | S) --> M)
  <<2, <<":",<<"P">>,<<"M">>>>, <<":",<<"S">>,<<"M">>>>, <<":",<<"&",<<"P">>,<<"S">>>>,<<"M">>>>, "Union", FALSE>>,   \* (P --> M) , (S --> M) , ((P & S) --> M)
  <<2, <<":",<<"P">>,<<"M">>>>, <<":",<<"S">>,<<"M">>>>, <<":",<<"~",<<"P">>,<<"S">>>>,<<"M">>>>, "Difference", FALSE>>,   \* (P --> M) , (S --> M) , ((P ~ S) --> M)
  <<2, <<":",<<"M">>,<<"P">>>>, <<":",<<"M">>,<<"S">>>>, <<":",<<"M">>,<<"&",<<"P">>,<<"S">>>>>>, "Intersection", FALSE>>,   \* (M --> P) , (M --> S) , (M --> (P & S))
  <<2, <<":",<<"M">>,<<"P">>>>, <<":",<<"M">>,<<"S">>>>, <<":",<<"M">>,<<"|",<<"P">>,<<"S">>>>>>, "Union", FALSE>>,   \* (M --> P) , (M --> S) , (M --> (P | S))
  <<2, <<":",<<"M">>,<<"P">>>>, <<":",<<"M">>,<<"S">>>>, <<":",<<"M">>,<<"-",<<"P">>,<<"S">>>>>>, "Difference", FALSE>>,   \* (M --> P) , (M --> S) , (M --> (P - S))
  <<2, <<":",<<"S">>,<<"M">>>>, <<":",<<"|",<<"S">>,<<"P">>>>,<<"M">>>>, <<":",<<"P">>,<<"M">>>>, "DecomposePNN", FALSE>>,   \* (S --> M) , ((S | P) --> M) , (P --> M)
  <<2, <<":",<<"P">>,<<"M">>>>, <<":",<<"|",<<"S">>,<<"P">>>>,<<"M">>>>, <<":",<<"S">>,<<"M">>>>, "DecomposePNN", FALSE>>,   \* (P --> M) , ((S | P) --> M) , (S --> M)
  <<2, <<":",<<"S">>,<<"M">>>>, <<":",<<"&",<<"S">>,<<"P">>>>,<<"M">>>>, <<":",<<"P">>,<<"M">>>>, "DecomposeNPP", FALSE>>,   \* (S --> M) , ((S & P) --> M) , (P --> M)
  <<2, <<":",<<"P">>,<<"M">>>>, <<":",<<"&",<<"S">>,<<"P">>>>,<<"M">>>>, <<":",<<"S">>,<<"M">>>>, "DecomposeNPP", FALSE>>,   \* (P --> M) , ((S & P) --> M) , (S --> M)
  <<2, <<":",<<"S">>,<<"M">>>>, <<":",<<"~",<<"S">>,<<"P">>>>,<<"M">>>>, <<":",<<"P">>,<<"M">>>>, "DecomposePNP", FALSE>>,   \* (S --> M) , ((S ~ P) --> M) , (P --> M)
  <<2, <<":",<<"S">>,<<"M">>>>, <<":",<<"~",<<"P">>,<<"S">>>>,<<"M">>>>, <<":",<<"P">>,<<"M">>>>, "DecomposeNNN", FALSE>>,   \* (S --> M) , ((P ~ S) --> M) , (P --> M)
  <<2, <<":",<<"M">>,<<"S">>>>, <<":",<<"M">>,<<"&",<<"S">>,<<"P">>>>>>, <<":",<<"M">>,<<"P">>>>, "DecomposePNN", FALSE>>,   \* (M --> S) , (M --> (S & P)) , (M --> P)
  <<2, <<":",<<"M">>,<<"P">>>>, <<":",<<"M">>,<<"&",<<"S">>,<<"P">>>>>>, <<":",<<"M">>,<<"S">>>>, "DecomposePNN", FALSE>>,   \* (M --> P) , (M --> (S & P)) , (M --> S)
  <<2, <<":",<<"M">>,<<"S">>>>, <<":",<<"M">>,<<"|",<<"S">>,<<"P">>>>>>, <<":",<<"M">>,<<"P">>>>, "DecomposeNPP", FALSE>>,   \* (M --> S) , (M --> (S | P)) , (M --> P)
  <<2, <<":",<<"M">>,<<"P">>>>, <<":",<<"M">>,<<"|",<<"S">>,<<"P">>>>>>, <<":",<<"M">>,<<"S">>>>, "DecomposeNPP", FALSE>>,   \* (M --> P) , (M --> (S | P)) , (M --> S)
  <<2, <<":",<<"M">>,<<"S">>>>, <<":",<<"M">>,<<"-",<<"S">>,<<"P">>>>>>, <<":",<<"M">>,<<"P">>>>, "DecomposePNP", FALSE>>,   \* (M --> S) , (M --> (S - P)) , (M --> P)
  <<2, <<":",<<"M">>,<<"S">>>>, <<":",<<"M">>,<<"-",<<"P">>,<<"S">>>>>>, <<":",<<"M">>,<<"P">>>>, "DecomposeNNN", FALSE>>,   \* (M --> S) , (M --> (P - S)) , (M --> P)
  <<1, <<":",<<"*",<<"A">>,<<"B">>>>,<<"*",<<"S">>,<<"M">>>>>>, <<"-">>, <<":",<<"A">>,<<"S">>>>, "StructuralDeduction", FALSE>>,   \* ((A * B) --> (S * M)) , , (A --> S)
  <<1, <<":",<<"*",<<"A">>,<<"B">>>>,<<"*",<<"S">>,<<"M">>>>>>, <<"-">>, <<":",<<"B">>,<<"M">>>>, "StructuralDeduction", FALSE>>,   \* ((A * B) --> (S * M)) , , (B --> M)
  <<1, <<":",<<"*",<<"A">>,<<"B">>>>,<<"R">>>>, <<"-">>, <<":",<<"A">>,<<"/",<<"R">>,<<"B">>>>>>, "StructuralIntersection", FALSE>>,   \* ((A * B) --> R) , , (A --> (R /1 B))
  <<1, <<":",<<"A">>,<<"/",<<"R">>,<<"B">>>>>>, <<"-">>, <<":",<<"*",<<"A">>,<<"B">>>>,<<"R">>>>, "StructuralIntersection", FALSE>>,   \* (A --> (R /1 B)) , , ((A * B) --> R)
  <<1, <<":",<<"*",<<"A">>,<<"B">>>>,<<"R">>>>, <<"-">>, <<":",<<"B">>,<<"%",<<"R">>,<<"A">>>>>>, "StructuralIntersection", FALSE>>,   \* ((A * B) --> R) , , (B --> (R /2 A))
  <<1, <<":",<<"B">>,<<"%",<<"R">>,<<"A">>>>>>, <<"-">>, <<":",<<"*",<<"A">>,<<"B">>>>,<<"R">>>>, "StructuralIntersection", FALSE>>,   \* (B --> (R /2 A)) , , ((A * B) --> R)
  <<1, <<":",<<"R">>,<<"*",<<"A">>,<<"B">>>>>>, <<"-">>, <<":",<<"\\",<<"R">>,<<"B">>>>,<<"A">>>>, "StructuralIntersection", FALSE>>,   \* (R --> (A * B)) , , ((R \1 B) --> A)
  <<1, <<":",<<"\\",<<"R">>,<<"B">>>>,<<"A">>>>, <<"-">>, <<":",<<"R">>,<<"*",<<"A">>,<<"B">>>>>>, "StructuralIntersection", FALSE>>,   \* ((R \1 B) --> A) , , (R --> (A * B))
  <<1, <<":",<<"R">>,<<"*",<<"A">>,<<"B">>>>>>, <<"-">>, <<":",<<"#",<<"R">>,<<"A">>>>,<<"B">>>>, "StructuralIntersection", FALSE>>,   \* (R --> (A * B)) , , ((R \2 A) --> B)
  <<1, <<":",<<"#",<<"R">>,<<"A">>>>,<<"B">>>>, <<"-">>, <<":",<<"R">>,<<"*",<<"A">>,<<"B">>>>>>, "StructuralIntersection", FALSE>>,   \* ((R \2 A) --> B) , , (R --> (A * B))
  <<2, <<",",<<"\"",<<"R">>,<<"@">>>>,<<"'",<<"P">>,<<"@">>>>>>, <<",",<<"\"",<<"S">>,<<"@">>>>,<<"'",<<"P">>,<<"@">>>>>>, <<":",<<"*",<<"\"",<<"R">>,<<"@">>>>,<<"\"",<<"S">>,<<"@">>>>>>,<<"+",<<"P">>,<<"@">>>>>>, "FrequencyGreater", FALSE>>,   \* ({R} |-> [P]) , ({S} |-> [P]) , (({R} * {S}) --> (+ P))
  <<2, <<":",<<"*",<<"A">>,<<"B">>>>,<<"+",<<"P">>,<<"@">>>>>>, <<":",<<"*",<<"B">>,<<"C">>>>,<<"+",<<"P">>,<<"@">>>>>>, <<":",<<"*",<<"A">>,<<"C">>>>,<<"+",<<"P">>,<<"@">>>>>>, "Deduction", FALSE>>,   \* ((A * B) --> (+ P)) , ((B * C) --> (+ P)) , ((A * C) --> (+ P))
  <<2, <<",",<<"\"",<<"R">>,<<"@">>>>,<<"'",<<"P">>,<<"@">>>>>>, <<",",<<"\"",<<"S">>,<<"@">>>>,<<"'",<<"P">>,<<"@">>>>>>, <<":",<<"*",<<"\"",<<"R">>,<<"@">>>>,<<"\"",<<"S">>,<<"@">>>>>>,<<"=",<<"P">>,<<"@">>>>>>, "FrequencyEqual", FALSE>>,   \* ({R} |-> [P]) , ({S} |-> [P]) , (({R} * {S}) --> (= P))
  <<2, <<":",<<"*",<<"A">>,<<"B">>>>,<<"=",<<"P">>,<<"@">>>>>>, <<":",<<"*",<<"B">>,<<"C">>>>,<<"=",<<"P">>,<<"@">>>>>>, <<":",<<"*",<<"A">>,<<"C">>>>,<<"=",<<"P">>,<<"@">>>>>>, "Deduction", FALSE>>,   \* ((A * B) --> (= P)) , ((B * C) --> (= P)) , ((A * C) --> (= P))
  <<1, <<":",<<"*",<<"A">>,<<"B">>>>,<<"=",<<"P">>,<<"@">>>>>>, <<"-">>, <<":",<<"*",<<"B">>,<<"A">>>>,<<"=",<<"P">>,<<"@">>>>>>, "StructuralIntersection", FALSE>>,   \* ((A * B) --> (= P)) , , ((B * A) --> (= P))
  <<2, <<":",<<"*",<<"A">>,<<"B">>>>,<<"R">>>>, <<":",<<"*",<<"C">>,<<"B">>>>,<<"R">>>>, <<":",<<"C">>,<<"A">>>>, "Abduction", FALSE>>,   \* ((A * B) --> R) , ((C * B) --> R) , (C --> A)
  <<2, <<":",<<"*",<<"A">>,<<"B">>>>,<<"R">>>>, <<":",<<"*",<<"A">>,<<"C">>>>,<<"R">>>>, <<":",<<"C">>,<<"B">>>>, "Abduction", FALSE>>,   \* ((A * B) --> R) , ((A * C) --> R) , (C --> B)
  <<2, <<":",<<"R">>,<<"*",<<"A">>,<<"B">>>>>>, <<":",<<"R">>,<<"*",<<"C">>,<<"B">>>>>>, <<":",<<"C">>,<<"A">>>>, "Induction", FALSE>>,   \* (R --> (A * B)) , (R --> (C * B)) , (C --> A)
  <<2, <<":",<<"R">>,<<"*",<<"A">>,<<"B">>>>>>, <<":",<<"R">>,<<"*",<<"A">>,<<"C">>>>>>, <<":",<<"C">>,<<"B">>>>, "Induction", FALSE>>,   \* (R --> (A * B)) , (R --> (A * C)) , (C --> B)
  <<2, <<":",<<"*",<<"A">>,<<"B">>>>,<<"R">>>>, <<":",<<"C">>,<<"A">>>>, <<":",<<"*",<<"C">>,<<"B">>>>,<<"R">>>>, "Deduction", FALSE>>,   \* ((A * B) --> R) , (C --> A) , ((C * B) --> R)
  <<2, <<":",<<"*",<<"A">>,<<"B">>>>,<<"R">>>>, <<":",<<"A">>,<<"C">>>>, <<":",<<"*",<<"C">>,<<"B">>>>,<<"R">>>>, "Induction", FALSE>>,   \* ((A * B) --> R) , (A --> C) , ((C * B) --> R)
  <<2, <<":",<<"*",<<"A">>,<<"B">>>>,<<"R">>>>, <<"=",<<"C">>,<<"A">>>>, <<":",<<"*",<<"C">>,<<"B">>>>,<<"R">>>>, "Analogy", FALSE>>,   \* ((A * B) --> R) , (C <-> A) , ((C * B) --> R)
  <<2, <<":",<<"*",<<"A">>,<<"B">>>>,<<"R">>>>, <<":",<<"C">>,<<"B">>>>, <<":",<<"*",<<"A">>,<<"C">>>>,<<"R">>>>, "Deduction", FALSE>>,   \* ((A * B) --> R) , (C --> B) , ((A * C) --> R)
  <<2, <<":",<<"*",<<"A">>,<<"B">>>>,<<"R">>>>, <<":",<<"B">>,<<"C">>>>, <<":",<<"*",<<"A">>,<<"C">>>>,<<"R">>>>, "Induction", FALSE>>,   \* ((A * B) --> R) , (B --> C) , ((A * C) --> R)
  <<2, <<":",<<"*",<<"A">>,<<"B">>>>,<<"R">>>>, <<"=",<<"C">>,<<"B">>>>, <<":",<<"*",<<"A">>,<<"C">>>>,<<"R">>>>, "Analogy", FALSE>>,   \* ((A * B) --> R) , (C <-> B) , ((A * C) --> R)
  <<2, <<":",<<"R">>,<<"*",<<"A">>,<<"B">>>>>>, <<":",<<"A">>,<<"C">>>>, <<":",<<"R">>,<<"*",<<"C">>,<<"B">>>>>>, "Deduction", FALSE>>,   \* (R --> (A * B)) , (A --> C) , (R --> (C * B))
  <<2, <<":",<<"R">>,<<"*",<<"A">>,<<"B">>>>>>, <<":",<<"C">>,<<"A">>>>, <<":",<<"R">>,<<"*",<<"C">>,<<"B">>>>>>, "Abduction", FALSE>>,   \* (R --> (A * B)) , (C --> A) , (R --> (C * B))
  <<2, <<":",<<"R">>,<<"*",<<"A">>,<<"B">>>>>>, <<"=",<<"C">>,<<"A">>>>, <<":",<<"R">>,<<"*",<<"C">>,<<"B">>>>>>, "Analogy", FALSE>>,   \* (R --> (A * B)) , (C <-> A) , (R --> (C * B))
  <<2, <<":",<<"R">>,<<"*",<<"A">>,<<"B">>>>>>, <<":",<<"B">>,<<"C">>>>, <<":",<<"R">>,<<"*",<<"A">>,<<"C">>>>>>, "Deduction", FALSE>>,   \* (R --> (A * B)) , (B --> C) , (R --> (A * C))
  <<2, <<":",<<"R">>,<<"*",<<"A">>,<<"B">>>>>>, <<":",<<"C">>,<<"B">>>>, <<":",<<"R">>,<<"*",<<"A">>,<<"C">>>>>>, "Abduction", FALSE>>,   \* (R --> (A * B)) , (C --> B) , (R --> (A * C))
  <<2, <<":",<<"R">>,<<"*",<<"A">>,<<"B">>>>>>, <<"=",<<"C">>,<<"B">>>>, <<":",<<"R">>,<<"*",<<"A">>,<<"C">>>>>>, "Analogy", FALSE>>,   \* (R --> (A * B)) , (C <-> B) , (R --> (A * C))
  <<2, <<":",<<"*",<<"A">>,<<"B">>>>,<<"R">>>>, <<":",<<"*",<<"C">>,<<"B">>>>,<<"R">>>>, <<"=",<<"A">>,<<"C">>>>, "Comparison", FALSE>>,   \* ((A * B) --> R) , ((C * B) --> R) , (A <-> C)
  <<2, <<":",<<"*",<<"A">>,<<"B">>>>,<<"R">>>>, <<":",<<"*",<<"A">>,<<"C">>>>,<<"R">>>>, <<"=",<<"B">>,<<"C">>>>, "Comparison", FALSE>>,   \* ((A * B) --> R) , ((A * C) --> R) , (B <-> C)
  <<2, <<":",<<"R">>,<<"*",<<"A">>,<<"B">>>>>>, <<":",<<"R">>,<<"*",<<"C">>,<<"B">>>>>>, <<"=",<<"A">>,<<"C">>>>, "Comparison", FALSE>>,   \* (R --> (A * B)) , (R --> (C * B)) , (A <-> C)
  <<2, <<":",<<"R">>,<<"*",<<"A">>,<<"B">>>>>>, <<":",<<"R">>,<<"*",<<"A">>,<<"C">>>>>>, <<"=",<<"B">>,<<"C">>>>, "Comparison", FALSE>>,   \* (R --> (A * B)) , (R --> (A * C)) , (B <-> C)
  <<1, <<"!",<<"A">>,<<"@">>>>, <<"-">>, <<"A">>, "Negation", FALSE>>,   \* (! A) , , A
  <<1, <<";",<<"A">>,<<"B">>>>, <<"-">>, <<"A">>, "StructuralDeduction", FALSE>>,   \* (A && B) , , A
  <<1, <<";",<<"A">>,<<"B">>>>, <<"-">>, <<"B">>, "StructuralDeduction", FALSE>>,   \* (A && B) , , B
  <<1, <<";",<<"A">>,<<"B">>>>, <<"-">>, <<";",<<"B">>,<<"A">>>>, "StructuralIntersection", FALSE>>,   \* (A && B) , , (B && A)
  <<2, <<"S">>, <<";",<<"S">>,<<"A">>>>, <<"A">>, "DecomposePNN", FALSE>>,   \* S , (&& S A) , A
  <<2, <<"S">>, <<"_",<<"S">>,<<"A">>>>, <<"A">>, "DecomposeNPP", FALSE>>,   \* S , (|| S A) , A
  <<2, <<"S">>, <<";",<<"!",<<"S">>,<<"@">>>>,<<"A">>>>, <<"A">>, "DecomposeNNN", FALSE>>,   \* S , (&& (! S) A) , A
  <<2, <<"S">>, <<"_",<<"!",<<"S">>,<<"@">>>>,<<"A">>>>, <<"A">>, "DecomposePPP", FALSE>>,   \* S , (|| (! S) A) , A
  <<2, <<"?",<<"S">>,<<"M">>>>, <<"?",<<"M">>,<<"P">>>>, <<"?",<<"S">>,<<"P">>>>, "Deduction", FALSE>>,   \* (S ==> M) , (M ==> P) , (S ==> P)
  <<2, <<"?",<<"A">>,<<"B">>>>, <<"?",<<"A">>,<<"C">>>>, <<"?",<<"C">>,<<"B">>>>, "Induction", FALSE>>,   \* (A ==> B) , (A ==> C) , (C ==> B)
  <<2, <<"?",<<"A">>,<<"C">>>>, <<"?",<<"B">>,<<"C">>>>, <<"?",<<"B">>,<<"A">>>>, "Abduction", FALSE>>,   \* (A ==> C) , (B ==> C) , (B ==> A)
  <<2, <<"?",<<"A">>,<<"B">>>>, <<"?",<<"B">>,<<"C">>>>, <<"?",<<"C">>,<<"A">>>>, "Exemplification", FALSE>>,   \* (A ==> B) , (B ==> C) , (C ==> A)
  <<2, <<"?",<<"A">>,<<"C">>>>, <<"?",<<"B">>,<<"C">>>>, <<"?",<<";",<<"A">>,<<"B">>>>,<<"C">>>>, "Union", FALSE>>,   \* (A ==> C) , (B ==> C) , ((A && B) ==> C)
  <<2, <<"?",<<"A">>,<<"C">>>>, <<"?",<<"B">>,<<"C">>>>, <<"?",<<"_",<<"A">>,<<"B">>>>,<<"C">>>>, "Intersection", FALSE>>,   \* (A ==> C) , (B ==> C) , ((A || B) ==> C)
  <<2, <<"?",<<"C">>,<<"A">>>>, <<"?",<<"C">>,<<"B">>>>, <<"?",<<"C">>,<<";",<<"A">>,<<"B">>>>>>, "Intersection", FALSE>>,   \* (C ==> A) , (C ==> B) , (C ==> (A && B))
  <<2, <<"?",<<"C">>,<<"A">>>>, <<"?",<<"C">>,<<"B">>>>, <<"?",<<"C">>,<<"_",<<"A">>,<<"B">>>>>>, "Union", FALSE>>,   \* (C ==> A) , (C ==> B) , (C ==> (A || B))
  <<2, <<"?",<<";",<<"S">>,<<"P">>>>,<<"M">>>>, <<"?",<<"S">>,<<"M">>>>, <<"P">>, "Abduction", FALSE>>,   \* ((S && P) ==> M) , (S ==> M) , P
  <<2, <<"?",<<";",<<"C">>,<<"M">>>>,<<"P">>>>, <<"?",<<"S">>,<<"M">>>>, <<"?",<<";",<<"C">>,<<"S">>>>,<<"P">>>>, "Deduction", FALSE>>,   \* ((C && M) ==> P) , (S ==> M) , ((C && S) ==> P)
  <<2, <<"?",<<";",<<"C">>,<<"P">>>>,<<"M">>>>, <<"?",<<";",<<"C">>,<<"S">>>>,<<"M">>>>, <<"?",<<"S">>,<<"P">>>>, "Abduction", FALSE>>,   \* ((C && P) ==> M) , ((C && S) ==> M) , (S ==> P)
  <<2, <<"?",<<";",<<"C">>,<<"M">>>>,<<"P">>>>, <<"?",<<"M">>,<<"S">>>>, <<"?",<<";",<<"C">>,<<"S">>>>,<<"P">>>>, "Induction", FALSE>>,   \* ((C && M) ==> P) , (M ==> S) , ((C && S) ==> P)
  <<1, <<"^",<<"S">>,<<"P">>>>, <<"-">>, <<"^",<<"P">>,<<"S">>>>, "StructuralIntersection", FALSE>>,   \* (S <=> P) , , (P <=> S)
  <<2, <<"?",<<"S">>,<<"P">>>>, <<"?",<<"P">>,<<"S">>>>, <<"^",<<"S">>,<<"P">>>>, "Intersection", FALSE>>,   \* (S ==> P) , (P ==> S) , (S <=> P)
  <<2, <<"?",<<"P">>,<<"M">>>>, <<"?",<<"S">>,<<"M">>>>, <<"^",<<"S">>,<<"P">>>>, "Comparison", FALSE>>,   \* (P ==> M) , (S ==> M) , (S <=> P)
  <<2, <<"?",<<"M">>,<<"P">>>>, <<"?",<<"M">>,<<"S">>>>, <<"^",<<"S">>,<<"P">>>>, "Comparison", FALSE>>,   \* (M ==> P) , (M ==> S) , (S <=> P)
  <<2, <<"?",<<"M">>,<<"P">>>>, <<"^",<<"S">>,<<"M">>>>, <<"?",<<"S">>,<<"P">>>>, "Analogy", FALSE>>,   \* (M ==> P) , (S <=> M) , (S ==> P)
  <<2, <<"?",<<"P">>,<<"M">>>>, <<"^",<<"S">>,<<"M">>>>, <<"?",<<"P">>,<<"S">>>>, "Analogy", FALSE>>,   \* (P ==> M) , (S <=> M) , (P ==> S)
  <<2, <<"^",<<"M">>,<<"P">>>>, <<"^",<<"S">>,<<"M">>>>, <<"^",<<"S">>,<<"P">>>>, "Resemblance", FALSE>>,   \* (M <=> P) , (S <=> M) , (S <=> P)
  <<2, <<":",<<"C">>,<<"A">>>>, <<":",<<"C">>,<<"B">>>>, <<"?",<<":",<<"C">>,<<"B">>>>,<<":",<<"C">>,<<"A">>>>>>, "Induction", TRUE>>,   \* (C --> A) , (C --> B) , ((C --> B) ==> (C --> A))
  <<2, <<":",<<"A">>,<<"C">>>>, <<":",<<"B">>,<<"C">>>>, <<"?",<<":",<<"B">>,<<"C">>>>,<<":",<<"A">>,<<"C">>>>>>, "Induction", TRUE>>,   \* (A --> C) , (B --> C) , ((B --> C) ==> (A --> C))
  <<2, <<":",<<"C">>,<<"A">>>>, <<":",<<"C">>,<<"B">>>>, <<"^",<<":",<<"C">>,<<"B">>>>,<<":",<<"C">>,<<"A">>>>>>, "Comparison", TRUE>>,   \* (C --> A) , (C --> B) , ((C --> B) <=> (C --> A))
  <<2, <<":",<<"A">>,<<"C">>>>, <<":",<<"B">>,<<"C">>>>, <<"^",<<":",<<"B">>,<<"C">>>>,<<":",<<"A">>,<<"C">>>>>>, "Comparison", TRUE>>,   \* (A --> C) , (B --> C) , ((B --> C) <=> (A --> C))
  <<2, <<"!",<<":",<<"C">>,<<"A">>>>,<<"@">>>>, <<":",<<"C">>,<<"B">>>>, <<"?",<<":",<<"C">>,<<"B">>>>,<<"!",<<":",<<"C">>,<<"A">>>>,<<"@">>>>>>, "Induction", TRUE>>,   \* (! (C --> A)) , (C --> B) , ((C --> B) ==> (! (C --> A)))
  <<2, <<"!",<<":",<<"A">>,<<"C">>>>,<<"@">>>>, <<":",<<"B">>,<<"C">>>>, <<"?",<<":",<<"B">>,<<"C">>>>,<<"!",<<":",<<"A">>,<<"C">>>>,<<"@">>>>>>, "Induction", TRUE>>,   \* (! (A --> C)) , (B --> C) , ((B --> C) ==> (! (A --> C)))
  <<2, <<"!",<<":",<<"C">>,<<"A">>>>,<<"@">>>>, <<":",<<"C">>,<<"B">>>>, <<"^",<<":",<<"C">>,<<"B">>>>,<<"!",<<":",<<"C">>,<<"A">>>>,<<"@">>>>>>, "Comparison", TRUE>>,   \* (! (C --> A)) , (C --> B) , ((C --> B) <=> (! (C --> A)))
  <<2, <<"!",<<":",<<"A">>,<<"C">>>>,<<"@">>>>, <<":",<<"B">>,<<"C">>>>, <<"^",<<":",<<"B">>,<<"C">>>>,<<"!",<<":",<<"A">>,<<"C">>>>,<<"@">>>>>>, "Comparison", TRUE>>,   \* (! (A --> C)) , (B --> C) , ((B --> C) <=> (! (A --> C)))
  <<2, <<":",<<"C">>,<<"A">>>>, <<"!",<<":",<<"C">>,<<"B">>>>,<<"@">>>>, <<"?",<<"!",<<":",<<"C">>,<<"B">>>>,<<"@">>>>,<<":",<<"C">>,<<"A">>>>>>, "Induction", TRUE>>,   \* (C --> A) , (! (C --> B)) , ((! (C --> B)) ==> (C --> A))
  <<2, <<":",<<"A">>,<<"C">>>>, <<"!",<<":",<<"B">>,<<"C">>>>,<<"@">>>>, <<"?",<<"!",<<":",<<"B">>,<<"C">>>>,<<"@">>>>,<<":",<<"A">>,<<"C">>>>>>, "Induction", TRUE>>,   \* (A --> C) , (! (B --> C)) , ((! (B --> C)) ==> (A --> C))
  <<2, <<":",<<"C">>,<<"A">>>>, <<"!",<<":",<<"C">>,<<"B">>>>,<<"@">>>>, <<"^",<<"!",<<":",<<"C">>,<<"B">>>>,<<"@">>>>,<<":",<<"C">>,<<"A">>>>>>, "Comparison", TRUE>>,   \* (C --> A) , (! (C --> B)) , ((! (C --> B)) <=> (C --> A))
  <<2, <<":",<<"A">>,<<"C">>>>, <<"!",<<":",<<"B">>,<<"C">>>>,<<"@">>>>, <<"^",<<"!",<<":",<<"B">>,<<"C">>>>,<<"@">>>>,<<":",<<"A">>,<<"C">>>>>>, "Comparison", TRUE>>,   \* (A --> C) , (! (B --> C)) , ((! (B --> C)) <=> (A --> C))
  <<2, <<":",<<"C">>,<<"A">>>>, <<":",<<"C">>,<<"B">>>>, <<";",<<":",<<"C">>,<<"B">>>>,<<":",<<"C">>,<<"A">>>>>>, "Intersection", TRUE>>,   \* (C --> A) , (C --> B) , ((C --> B) && (C --> A))
  <<2, <<":",<<"A">>,<<"C">>>>, <<":",<<"B">>,<<"C">>>>, <<";",<<":",<<"B">>,<<"C">>>>,<<":",<<"A">>,<<"C">>>>>>, "Intersection", TRUE>>,   \* (A --> C) , (B --> C) , ((B --> C) && (A --> C))
  <<2, <<"!",<<":",<<"C">>,<<"A">>>>,<<"@">>>>, <<":",<<"C">>,<<"B">>>>, <<";",<<":",<<"C">>,<<"B">>>>,<<"!",<<":",<<"C">>,<<"A">>>>,<<"@">>>>>>, "Intersection", TRUE>>,   \* (! (C --> A)) , (C --> B) , ((C --> B) && (! (C --> A)))
  <<2, <<"!",<<":",<<"A">>,<<"C">>>>,<<"@">>>>, <<":",<<"B">>,<<"C">>>>, <<";",<<":",<<"B">>,<<"C">>>>,<<"!",<<":",<<"A">>,<<"C">>>>,<<"@">>>>>>, "Intersection", TRUE>>,   \* (! (A --> C)) , (B --> C) , ((B --> C) && (! (A --> C)))
  <<2, <<":",<<"C">>,<<"A">>>>, <<"!",<<":",<<"C">>,<<"B">>>>,<<"@">>>>, <<";",<<"!",<<":",<<"C">>,<<"B">>>>,<<"@">>>>,<<":",<<"C">>,<<"A">>>>>>, "Intersection", TRUE>>,   \* (C --> A) , (! (C --> B)) , ((! (C --> B)) && (C --> A))
  <<2, <<":",<<"A">>,<<"C">>>>, <<"!",<<":",<<"B">>,<<"C">>>>,<<"@">>>>, <<";",<<"!",<<":",<<"B">>,<<"C">>>>,<<"@">>>>,<<":",<<"A">>,<<"C">>>>>>, "Intersection", TRUE>>,   \* (A --> C) , (! (B --> C)) , ((! (B --> C)) && (A --> C))
  <<2, <<"?",<<":",<<"$1">>,<<"B">>>>,<<":",<<"$1">>,<<"C">>>>>>, <<"A">>, <<";",<<"A">>,<<"?",<<":",<<"$1">>,<<"B">>>>,<<":",<<"$1">>,<<"C">>>>>>>>, "Intersection", TRUE>>,   \* (<$1 --> B> ==> <$1 --> C>) , A , (A && (<$1 --> B> ==> <$1 --> C>))
  <<2, <<";",<<":",<<"#1">>,<<"B">>>>,<<":",<<"#1">>,<<"C">>>>>>, <<"A">>, <<"?",<<"A">>,<<";",<<":",<<"#1">>,<<"B">>>>,<<":",<<"#1">>,<<"C">>>>>>>>, "Induction", TRUE>>,   \* (<#1 --> B> && <#1 --> C>) , A , (A ==> (<#1 --> B> && <#1 --> C>))
  <<2, <<"?",<<"B">>,<<"C">>>>, <<"A">>, <<"?",<<";",<<"A">>,<<"B">>>>,<<"C">>>>, "Induction", TRUE>>,   \* (B ==> C) , A , ((A && B) ==> C)
  <<2, <<":",<<"*",<<"A">>,<<"B">>>>,<<"R">>>>, <<":",<<"*",<<"B">>,<<"A">>>>,<<"S">>>>, <<"?",<<":",<<"*",<<"B">>,<<"A">>>>,<<"S">>>>,<<":",<<"*",<<"A">>,<<"B">>>>,<<"R">>>>>>, "Induction", TRUE>>,   \* ((A * B) --> R) , ((B * A) --> S) , (((B * A) --> S) ==> ((A * B) --> R))
  <<2, <<"!",<<":",<<"*",<<"B">>,<<"A">>>>,<<"R">>>>,<<"@">>>>, <<":",<<"*",<<"A">>,<<"B">>>>,<<"S">>>>, <<"?",<<":",<<"*",<<"A">>,<<"B">>>>,<<"S">>>>,<<"!",<<":",<<"*",<<"B">>,<<"A">>>>,<<"R">>>>,<<"@">>>>>>, "Induction", TRUE>>,   \* (! ((B * A) --> R)) , ((A * B) --> S) , (((A * B) --> S) ==> (! ((B * A) --> R)))
  <<2, <<":",<<"*",<<"B">>,<<"A">>>>,<<"R">>>>, <<"!",<<":",<<"*",<<"A">>,<<"B">>>>,<<"S">>>>,<<"@">>>>, <<"?",<<"!",<<":",<<"*",<<"A">>,<<"B">>>>,<<"S">>>>,<<"@">>>>,<<":",<<"*",<<"B">>,<<"A">>>>,<<"R">>>>>>, "Induction", TRUE>>,   \* ((B * A) --> R) , (! ((A * B) --> S)) , ((! ((A * B) --> S)) ==> ((B * A) --> R))
  <<2, <<":",<<"*",<<"A">>,<<"B">>>>,<<"R">>>>, <<":",<<"*",<<"B">>,<<"C">>>>,<<"S">>>>, <<";",<<":",<<"*",<<"A">>,<<"B">>>>,<<"R">>>>,<<":",<<"*",<<"B">>,<<"C">>>>,<<"S">>>>>>, "Intersection", FALSE>>,   \* ((A * B) --> R) , ((B * C) --> S) , (((A * B) --> R) && ((B * C) --> S))
  <<2, <<":",<<"*",<<"A">>,<<"C">>>>,<<"M">>>>, <<";",<<":",<<"*",<<"A">>,<<"B">>>>,<<"R">>>>,<<":",<<"*",<<"B">>,<<"C">>>>,<<"S">>>>>>, <<"?",<<";",<<":",<<"*",<<"A">>,<<"B">>>>,<<"R">>>>,<<":",<<"*",<<"B">>,<<"C">>>>,<<"S">>>>>>,<<":",<<"*",<<"A">>,<<"C">>>>,<<"M">>>>>>, "Induction", TRUE>>   \* ((A * C) --> M) , (((A * B) --> R) && ((B * C) --> S)) , ((((A * B) --> R) && ((B * C) --> S)) ==> ((A * C) --> M))
>>
Reductions == <<
  <<<<":",<<"&",<<"A">>,<<"A">>>>,<<"M">>>>, <<":",<<"A">>,<<"M">>>>>>,   \* ((A & A) --> M) , , (A --> M)
  <<<<":",<<"M">>,<<"&",<<"A">>,<<"A">>>>>>, <<":",<<"M">>,<<"A">>>>>>,   \* (M --> (A & A)) , , (M --> A)
  <<<<":",<<"|",<<"A">>,<<"A">>>>,<<"M">>>>, <<":",<<"A">>,<<"M">>>>>>,   \* ((A | A) --> M) , , (A --> M)
  <<<<":",<<"M">>,<<"|",<<"A">>,<<"A">>>>>>, <<":",<<"M">>,<<"A">>>>>>,   \* (M --> (A | A)) , , (M --> A)
  <<<<";",<<"A">>,<<"A">>>>, <<"A">>>>,   \* (A && A) , , A
  <<<<"_",<<"A">>,<<"A">>>>, <<"A">>>>,   \* (A || A) , , A
  <<<<":",<<"|",<<"\"",<<"A">>,<<"@">>>>,<<"\"",<<"B">>,<<"@">>>>>>,<<"M">>>>, <<":",<<"\"",<<"A">>,<<"B">>>>,<<"M">>>>>>,   \* (({A} | {B}) --> M) , , ({A B} --> M)
  <<<<":",<<"M">>,<<"|",<<"\"",<<"A">>,<<"@">>>>,<<"\"",<<"B">>,<<"@">>>>>>>>, <<":",<<"M">>,<<"\"",<<"A">>,<<"B">>>>>>>>,   \* (M --> ({A} | {B})) , , (M --> {A B})
  <<<<":",<<"|",<<"\"",<<"A">>,<<"B">>>>,<<"\"",<<"C">>,<<"@">>>>>>,<<"M">>>>, <<":",<<"\"",<<".",<<"A">>,<<"B">>>>,<<"C">>>>,<<"M">>>>>>,   \* (({A B} | {C}) --> M) , , ({(A . B) C} --> M)
  <<<<":",<<"M">>,<<"|",<<"\"",<<"A">>,<<"B">>>>,<<"\"",<<"C">>,<<"@">>>>>>>>, <<":",<<"M">>,<<"\"",<<".",<<"A">>,<<"B">>>>,<<"C">>>>>>>>,   \* (M --> ({A B} | {C})) , , (M --> {(A . B) C})
  <<<<":",<<"|",<<"\"",<<"C">>,<<"@">>>>,<<"\"",<<"A">>,<<"B">>>>>>,<<"M">>>>, <<":",<<"\"",<<"C">>,<<".",<<"A">>,<<"B">>>>>>,<<"M">>>>>>,   \* (({C} | {A B}) --> M) , , ({C (A . B)} --> M)
  <<<<":",<<"M">>,<<"|",<<"\"",<<"C">>,<<"@">>>>,<<"\"",<<"A">>,<<"B">>>>>>>>, <<":",<<"M">>,<<"\"",<<"C">>,<<".",<<"A">>,<<"B">>>>>>>>>>,   \* (M --> ({C} | {A B})) , , (M --> {C (A . B)})
  <<<<":",<<"&",<<"'",<<"A">>,<<"@">>>>,<<"'",<<"B">>,<<"@">>>>>>,<<"M">>>>, <<":",<<"'",<<"A">>,<<"B">>>>,<<"M">>>>>>,   \* (([A] & [B]) --> M) , , ([A B] --> M)
  <<<<":",<<"M">>,<<"&",<<"'",<<"A">>,<<"@">>>>,<<"'",<<"B">>,<<"@">>>>>>>>, <<":",<<"M">>,<<"'",<<"A">>,<<"B">>>>>>>>,   \* (M --> ([A] & [B])) , , (M --> [A B])
  <<<<":",<<"&",<<"'",<<"A">>,<<"B">>>>,<<"'",<<"C">>,<<"@">>>>>>,<<"M">>>>, <<":",<<"'",<<".",<<"A">>,<<"B">>>>,<<"C">>>>,<<"M">>>>>>,   \* (([A B] & [C]) --> M) , , ([(A . B) C] --> M)
  <<<<":",<<"M">>,<<"&",<<"'",<<"A">>,<<"B">>>>,<<"'",<<"C">>,<<"@">>>>>>>>, <<":",<<"M">>,<<"'",<<".",<<"A">>,<<"B">>>>,<<"C">>>>>>>>,   \* (M --> ([A B] & [C])) , , (M --> [(A . B) C])
  <<<<":",<<"&",<<"'",<<"A">>,<<"@">>>>,<<"'",<<"B">>,<<"C">>>>>>,<<"M">>>>, <<":",<<"'",<<"A">>,<<".",<<"B">>,<<"C">>>>>>,<<"M">>>>>>,   \* (([A] & [B C]) --> M) , , ([A (B . C)] --> M)
  <<<<":",<<"M">>,<<"&",<<"'",<<"A">>,<<"@">>>>,<<"'",<<"B">>,<<"C">>>>>>>>, <<":",<<"M">>,<<"'",<<"A">>,<<".",<<"B">>,<<"C">>>>>>>>>>,   \* (M --> ([A] & [B C])) , , (M --> [A (B . C)])
  <<<<":",<<"\"",<<".",<<"A">>,<<"B">>>>,<<"@">>>>,<<"M">>>>, <<":",<<"\"",<<"A">>,<<"B">>>>,<<"M">>>>>>,   \* ({(A . B)} --> M) , , ({A B} --> M)
  <<<<":",<<"M">>,<<"\"",<<".",<<"A">>,<<"B">>>>,<<"@">>>>>>, <<":",<<"M">>,<<"\"",<<"A">>,<<"B">>>>>>>>,   \* (M --> {(A . B)}) , , (M --> {A B})
  <<<<":",<<"'",<<".",<<"A">>,<<"B">>>>,<<"@">>>>,<<"M">>>>, <<":",<<"'",<<"A">>,<<"B">>>>,<<"M">>>>>>,   \* ([(A . B)] --> M) , , ([A B] --> M)
  <<<<":",<<"M">>,<<"'",<<".",<<"A">>,<<"B">>>>,<<"@">>>>>>, <<":",<<"M">>,<<"'",<<"A">>,<<"B">>>>>>>>   \* (M --> [(A . B)]) , , (M --> [A B])
>>
=============================================================================
