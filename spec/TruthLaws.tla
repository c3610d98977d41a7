----------------------------- MODULE TruthLaws -----------------------------
(* What holds of every truth function (C10).                                *)
EXTENDS Truth, TLC
Unary  == { "Conversion", "Negation", "StructuralDeduction", "StructuralDeductionNegated", "StructuralIntersection" }
Binary == { "Deduction", "Induction", "Intersection", "GoalDeduction", "Abduction", "Exemplification", "Comparison", "Analogy", "Resemblance",
            "Union", "Difference", "DecomposePNN", "DecomposeNPP", "DecomposePNP", "DecomposePPP", "DecomposeNNN", "AnonymousAnalogy",
            "FrequencyGreater", "FrequencyEqual" }
FrequencyGreater(v, w) == IF v.f > w.f THEN TV(One, Mul(v.c, w.c)) ELSE TV(0, 0)
FrequencyEqual(v, w)   == IF v.f = w.f THEN TV(One, Mul(v.c, w.c)) ELSE TV(0, 0)
\* the values function n can have
Values(n, v, w) ==
  CASE n = "GoalDeduction" -> GoalDeductions(v, w)
    [] OTHER -> {
  CASE n = "Deduction" -> Deduction(v, w) [] n = "Induction" -> Induction(v, w) [] n = "Intersection" -> Intersection(v, w)
    [] n = "Abduction" -> Abduction(v, w) [] n = "Exemplification" -> Exemplification(v, w) [] n = "Comparison" -> Comparison(v, w)
    [] n = "Analogy" -> Analogy(v, w) [] n = "Resemblance" -> Resemblance(v, w) [] n = "Union" -> Union(v, w) [] n = "Difference" -> Difference(v, w)
    [] n = "DecomposePNN" -> DecomposePNN(v, w) [] n = "DecomposeNPP" -> DecomposeNPP(v, w) [] n = "DecomposePNP" -> DecomposePNP(v, w)
    [] n = "DecomposePPP" -> DecomposePPP(v, w) [] n = "DecomposeNNN" -> DecomposeNNN(v, w) [] n = "AnonymousAnalogy" -> AnonymousAnalogy(v, w)
    [] n = "FrequencyGreater" -> FrequencyGreater(v, w) [] n = "FrequencyEqual" -> FrequencyEqual(v, w)
    [] n = "Conversion" -> Conversion(v) [] n = "Negation" -> Negation(v) [] n = "StructuralDeduction" -> StructuralDeduction(v)
    [] n = "StructuralDeductionNegated" -> StructuralDeductionNegated(v) [] n = "StructuralIntersection" -> StructuralIntersection(v) }
Proper(v) == v.f \in 0..One /\ v.c \in 0..MaxConf
=============================================================================
