-------------------------------- MODULE Reset ------------------------------
(* What a reset leaves (C16): the settings that stay and the state every     *)
(* system starts from.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* settings that stay in effect
Kept == {"volume", "anticipation", "decision", "similarity", "babbling", "babblers", "priming", "other"}
\* settings and registrations every start makes anew
Renewed == {"restricted", "import", "ops", "values"}
Started(set, names) ==
  /\ ~set.restricted /\ set.import = <<>> /\ set.values = <<>>
  /\ \A i \in 1..Len(set.ops) : /\ set.ops[i].t = (IF i <= Len(names) THEN <<names[i]>> ELSE <<"-">>)
                                /\ ~set.ops[i].stdin
                                /\ \A k \in 1..Len(set.ops[i].args) : set.ops[i].args[k] = <<"-">>
Staying(set) == [k \in Kept |-> set[k]]
Names == <<"^left", "^right", "^up", "^down", "^say", "^pick", "^drop", "^go", "^activate", "^deactivate">>
Start == [now |-> 1, base |-> 1]
=============================================================================
