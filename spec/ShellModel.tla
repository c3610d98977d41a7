------------------------------ MODULE ShellModel ---------------------------
(* Lines of every kind, in any order (C21): each line is of exactly one      *)
(* kind, each command changes exactly what it names, no operation is         *)
(* registered twice, and what was set last stays set.                        *)
EXTENDS Shell
X == INSTANCE Text
CONSTANTS Depth0
VARIABLES set, lines, hist
vars == <<set, lines, hist>>
Names == {"^a", "^b", "^c"}
NSlots == 3
Start == [volume |-> 0, restricted |-> FALSE, anticipation |-> 1000000, decision |-> 50100000, similarity |-> One, babblers |-> 2, babbling |-> 20000000, priming |-> 10000000,
          import |-> <<>>, values |-> <<>>, other |-> 0, ops |-> [i \in 1..NSlots |-> [t |-> <<NoTerm[1]>>, args |-> <<NoTerm, NoTerm>>, stdin |-> FALSE]]]
Corpus == {"*volume=0", "*volume=100", "*volume=7", "*restrictedconceptcreation=true", "*restrictedconceptcreation=false", "*anticipationconfidence=0.02", "*decisionthreshold=.6", "*similaritydistance=2.5",
           "*babblingops=1", "*motorbabbling=true", "*motorbabbling=false", "*motorbabbling=0.7", "*questionpriming=0", "*setopname 1 ^a", "*setopname 2 ^a", "*setopname 3 ^a", "*setopname 1 ^b", "*setopname 2 ^b", "*setopname 3 ^c",
           "*setoparg 1 1 x", "*setoparg 2 1 x", "*setoparg 1 2 x", "*setopstdin 1", "*setopstdin 3", "*stats", "*concepts", "*opconfig", "*inverted_atom_index", "*cycling_belief_events", "*cycling_goal_events",
           "*concurrent", "*stampid=9", "*currenttime=30", "*query 0.5 <?1 --> a>?", "quit", "*reset"}
Others == {"", "  ", "//", "// 1", "//*volume=0", "///*reset", "1", "007", "12  ", "1a.", "a.", "a. :|:", "a?", "<a --> ?1>?", "a! :|: {1.0 0.9}", "<a --> b>. {0.5 0.9}", "* a", "<a =/> b>? :|:", "quitting.", "*statistics."}
Commands == { s \in Corpus : X!Command(s) # "" }
\* the commands a line could be
Readings(s) == (IF s \in X!Whole THEN {s} ELSE {}) \cup { p \in X!Starts : X!Prefix(p, s) }
Slot(s) == X!Nat10(X!After(X!Command(s), s))
Named(s) == LET c == X!Command(s) IN
  CASE c \in {"*volume=0", "*volume=100", "*volume="} -> {"volume"}
    [] c \in {"*restrictedconceptcreation=true", "*restrictedconceptcreation=false"} -> {"restricted"}
    [] c = "*anticipationconfidence=" -> {"anticipation"} [] c = "*decisionthreshold=" -> {"decision"} [] c = "*similaritydistance=" -> {"similarity"}
    [] c = "*babblingops=" -> {"babblers"} [] c \in {"*motorbabbling=", "*motorbabbling=true", "*motorbabbling=false"} -> {"babbling"} [] c = "*questionpriming=" -> {"priming"}
    [] c \in {"*setopname ", "*setoparg ", "*setopstdin "} -> {"ops"}
    [] OTHER -> {}
\* every line is of one kind
Kinds == /\ \A s \in Corpus \cup Others : X!Kind(s) \in {"empty", "comment", "command", "number", "question", "sentence"}
         /\ \A s \in Corpus : X!Kind(s) = "command" /\ (Readings(s) = {X!Command(s)} \/ Readings(s) \in {{"*volume=0", "*volume="}, {"*volume=100", "*volume="}, {"*motorbabbling=", "*motorbabbling=true"}, {"*motorbabbling=", "*motorbabbling=false"}})
         /\ \A s \in Others : X!Kind(s) # "command" /\ Readings(s) = {}
Init == set = Start /\ lines = 0 /\ hist = [s \in {"motor", "name", "arg"} |-> ""] /\ Assert(Kinds, "kinds")
Do(s) == /\ set' = Effect(set, X!Command(s), s, <<"x">>)
         /\ hist' = [motor |-> IF "babbling" \in Named(s) THEN s ELSE hist.motor, name |-> IF X!Command(s) = "*setopname " THEN s ELSE hist.name, arg |-> IF X!Command(s) = "*setoparg " THEN s ELSE hist.arg]
         /\ Assert(\A k \in DOMAIN set : set'[k] # set[k] => k \in Named(s), s)
         /\ Assert(X!Command(s) \in {"*setoparg ", "*setopstdin "} => \A i \in 1..NSlots : i # Slot(s) => set'.ops[i] = set.ops[i], s)
         /\ Assert(\A i \in 1..NSlots : X!Command(s) # "*setoparg " => set'.ops[i].args = set.ops[i].args, s)
         /\ Assert(SetOk(set, set', X!Command(s), s, <<"x">>) \/ X!Command(s) = "*reset", s)
Next == lines < Depth0 /\ lines' = lines + 1 /\ \E s \in Commands : Do(s)
Spec == Init /\ [][Next]_vars
\* ---- invariants
Distinct == \A i, j \in 1..NSlots : i # j /\ set.ops[i].t # NoTerm => set.ops[i].t # set.ops[j].t
LastName == hist.name # "" => LET w == X!Words(X!After("*setopname ", hist.name)) IN set.ops[X!Nat10(w[1])].t = <<w[2]>>
LastArg == hist.arg # "" => LET w == X!Words(X!After("*setoparg ", hist.arg)) IN set.ops[X!Nat10(w[1])].args[X!Nat10(w[2])] = <<"x">>
LastMotor == set.babbling = (CASE hist.motor \in {"", "*motorbabbling=true"} -> 20000000 [] hist.motor = "*motorbabbling=false" -> 0 [] OTHER -> 70000000)
\* what is listed, typed in on a new system, defines the same operations
RECURSIVE Redo(_, _)
Redo(x, ls) == IF ls = <<>> THEN x ELSE LET o == Head(ls) IN
   Redo(IF X!Prefix("*setopname", o.s) THEN [x EXCEPT !.ops = Registered(@, o.v[1], X!Words(o.s)[3])] ELSE [x EXCEPT !.ops[o.v[1]].args[o.v[2]] = <<X!Words(o.s)[4]>>], Tail(ls))
Listing == \A i \in 1..NSlots : LET again == Redo(Start, OpLines(set.ops, 1)) IN again.ops[i].t = set.ops[i].t /\ again.ops[i].args = set.ops[i].args
=============================================================================
