------------------------------ MODULE Evidence -----------------------------
(* Evidence lists (C01): every input gets a number of its own, conclusions   *)
(* are drawn only from disjoint lists, which are interleaved and cut.        *)
EXTENDS Events
CONSTANTS MaxInputs, MaxBeliefs
VARIABLES next, lists
evars == <<next, lists>>
EInit == next = 1 /\ lists = {}
EInput == next <= MaxInputs /\ next' = next + 1 /\ lists' = lists \cup {<<next>>}
Combine == \E s \in lists, r \in lists : Disjoint(s, r) /\ lists' = lists \cup {Stamp(s, r)} /\ UNCHANGED next
Forget == \E s \in lists : lists' = lists \ {s} /\ UNCHANGED next
Reset == next > 1 /\ next' = 1 /\ lists' = {}
ENext == EInput \/ (Cardinality(lists) < MaxBeliefs /\ Combine) \/ Forget \/ Reset
ESpec == EInit /\ [][ENext]_evars
Lists == \A s \in lists : NoRepeats(s) /\ Len(s) \in 1..StampSize /\ \A i \in 1..Len(s) : s[i] \in 1..next-1
\* the interleaving written element by element: as the first list has odd and the second even places while both last
Interleaved == \A s \in lists, r \in lists :
  Disjoint(s, r) => LET z == Stamp(s, r) m == Min2(Len(s), Len(r)) IN
     /\ Len(z) = Min2(StampSize, Len(s) + Len(r))
     /\ \A k \in 1..Len(z) : z[k] = IF k <= 2*m THEN (IF k % 2 = 1 THEN s[(k+1) \div 2] ELSE r[k \div 2])
                                    ELSE IF Len(s) > m THEN s[k-m] ELSE r[k-m]
\* numbers are never given twice between resets
Fresh == [][next' = next \/ next' = next + 1 \/ (next' = 1 /\ lists' = {})]_evars
=============================================================================
