------------------------------ MODULE Concepts -----------------------------
(* Concept memory (C04): concepts by identity, the lookup by term and the    *)
(* index by atoms; the least useful concept makes room for a new one.        *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Cap,       \* capacity
          Ranks      \* usefulness values of the exhaustive model; the highest is that of a new concept
VARIABLES con,       \* id -> [t |-> term, rank |-> usefulness when memory was last ordered]
          nextId,
          lookup,    \* term -> id
          index      \* atom -> set of ids
cvars == <<con, nextId, lookup, index>>
Top1 == CHOOSE r \in Ranks : \A q \in Ranks : q <= r
\* atoms of a term are the elements of the set that stands for it in the exhaustive model
Known(c, t) == { i \in DOMAIN c : c[i].t = t }
Lowest(c) == { i \in DOMAIN c : \A j \in DOMAIN c : c[i].rank <= c[j].rank }
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

\* what memory may be after a concept for term t was asked for
AfterConceptualize(c, t, id, new) ==
  IF Known(c, t) # {} THEN {c}
  ELSE IF Cardinality(DOMAIN c) < Cap THEN { With(c, id, new) }
  ELSE { With(Without(c, {i}), id, new) : i \in Lowest(c) }

\* ---------------------------------------------------------------- exhaustive model
CONSTANT TermSet
Init == con = [i \in {} |-> 0] /\ nextId = 0 /\ lookup = [t \in {} |-> 0] /\ index = [a \in UNION TermSet |-> {}]
Conceptualize(t) ==
  /\ \E c \in AfterConceptualize(con, t, nextId, [t |-> t, rank |-> Top1]) :
       LET gone == DOMAIN con \ DOMAIN c   new == DOMAIN c \ DOMAIN con IN
       /\ con' = c
       /\ nextId' = nextId + Cardinality(new)
       /\ lookup' = IF new = {} THEN lookup ELSE With(Without(lookup, { con[i].t : i \in gone }), t, nextId)
       /\ index' = IF new = {} THEN index
                   ELSE [a \in DOMAIN index |-> (index[a] \ gone) \cup (IF a \in t THEN new ELSE {})]
Reorder == \E i \in DOMAIN con, r \in Ranks : con' = [con EXCEPT ![i].rank = r] /\ UNCHANGED <<nextId, lookup, index>>
Next == (\E t \in TermSet : nextId < 6 /\ Conceptualize(t)) \/ Reorder
Spec == Init /\ [][Next]_cvars
Unique == \A i, j \in DOMAIN con : con[i].t = con[j].t => i = j
LookupAgrees == lookup = [t \in { con[i].t : i \in DOMAIN con } |-> CHOOSE i \in DOMAIN con : con[i].t = t]
IndexAgrees == \A a \in DOMAIN index : index[a] = { i \in DOMAIN con : a \in con[i].t }
Bounded == Cardinality(DOMAIN con) <= Cap
FreshIds == \A i \in DOMAIN con : i < nextId
NeverReturns == [][\A i \in DOMAIN con' \ DOMAIN con : i >= nextId]_cvars
OnlyLowestGoes == [][\A i \in DOMAIN con \ DOMAIN con' : i \in Lowest(con) /\ Cardinality(DOMAIN con) = Cap]_cvars
=============================================================================
