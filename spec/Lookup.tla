------------------------------- MODULE Lookup ------------------------------
(* The lookup structures (C22): a hash table that is a finite map whose      *)
(* entries live in cells of a fixed pool, a stack, and the ring of recent    *)
(* events.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES cells,   \* the pool of the table
          used,    \* key -> cell
          map,     \* key -> value
          stk, stkCap, ring, ringCap
lvars == <<cells, used, map, stk, stkCap, ring, ringCap>>
Rng(f) == { f[x] : x \in DOMAIN f }
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
FreeCells == cells \ Rng(used)

TInit(n) == cells' = 0..n-1 /\ used' = [k \in {} |-> 0] /\ map' = [k \in {} |-> 0] /\ UNCHANGED <<stk, stkCap, ring, ringCap>>
Set(k, v, c) == /\ IF k \in DOMAIN map THEN used' = used /\ c = used[k]
                   ELSE c \in FreeCells /\ used' = Put(used, k, c)
                /\ map' = Put(map, k, v) /\ UNCHANGED <<cells, stk, stkCap, ring, ringCap>>
Get(k, v) == v = (IF k \in DOMAIN map THEN map[k] ELSE -1) /\ UNCHANGED lvars
Del(k) == k \in DOMAIN map /\ map' = Drop(map, k) /\ used' = Drop(used, k) /\ UNCHANGED <<cells, stk, stkCap, ring, ringCap>>

SInit(n) == stk' = <<>> /\ stkCap' = n /\ UNCHANGED <<cells, used, map, ring, ringCap>>
Push(v) == Len(stk) < stkCap /\ stk' = Append(stk, v) /\ UNCHANGED <<cells, used, map, stkCap, ring, ringCap>>
PopS(v) == stk # <<>> /\ v = stk[Len(stk)] /\ stk' = SubSeq(stk, 1, Len(stk)-1) /\ UNCHANGED <<cells, used, map, stkCap, ring, ringCap>>

RInit(n) == ring' = <<>> /\ ringCap' = n /\ UNCHANGED <<cells, used, map, stk, stkCap>>
\* newest first
RAdd(v) == ring' = SubSeq(<<v>> \o ring, 1, IF Len(ring) + 1 > ringCap THEN ringCap ELSE Len(ring) + 1)
           /\ UNCHANGED <<cells, used, map, stk, stkCap, ringCap>>

\* ---- exhaustive exploration
CONSTANTS Keys, Values, N
Init == cells = 0..N-1 /\ used = [k \in {} |-> 0] /\ map = [k \in {} |-> 0] /\ stk = <<>> /\ stkCap = N /\ ring = <<>> /\ ringCap = N
Next == \/ \E k \in Keys, v \in Values, c \in cells : Set(k, v, c)
        \/ \E k \in Keys : Del(k)
        \/ \E v \in Values : Push(v) \/ RAdd(v) \/ PopS(v)
Spec == Init /\ [][Next]_lvars
Partition == /\ Cardinality(Rng(used)) = Cardinality(DOMAIN used) /\ Rng(used) \subseteq cells
             /\ DOMAIN used = DOMAIN map
             /\ Cardinality(FreeCells) + Cardinality(DOMAIN map) = N
Bounded == Len(stk) <= stkCap /\ Len(ring) <= ringCap
OnlyThatKey == [][\A k \in Keys : (k \in DOMAIN map /\ k \in DOMAIN map' /\ map[k] # map'[k]) =>
                     \A j \in Keys \ {k} : (j \in DOMAIN map) = (j \in DOMAIN map')]_lvars
=============================================================================
