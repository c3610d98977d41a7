------------------------------ MODULE ResetModel ---------------------------
(* Two systems side by side: one that ran anything and was reset, and one    *)
(* that was just started with the same settings.  Their state is all that    *)
(* can influence what they do: memory, clock, the evidence counter, the      *)
(* counters an adaptive threshold is computed from, what was set for the     *)
(* next input, and the settings.  After the reset they are given the same    *)
(* lines; they must stay in the same state and print the same.               *)
EXTENDS Reset
CONSTANTS Steps, Missed     \* lines before and after; state a reset forgets to renew (none)
Vars == {"memory", "clock", "base", "matched", "threshold", "import", "restricted", "setting"}
Init0 == [memory |-> {}, clock |-> 1, base |-> 1, matched |-> 0, threshold |-> 0, import |-> 0, restricted |-> FALSE, setting |-> 0]
VARIABLES a, b, phase, n, same
vars == <<a, b, phase, n, same>>
Lines == {"input", "cycle", "import", "restrict", "set1", "set2"}
\* a line's effect and what it prints
Threshold(s) == LET avg == s.matched \div s.clock IN IF avg > 1 THEN 1 ELSE 0
Do(s, line) ==
  CASE line = "input"  -> [s EXCEPT !.memory = @ \cup {<<IF s.import = 0 THEN s.base ELSE 0, s.threshold>>}, !.import = 0, !.base = @ + 1, !.clock = @ + 1]
    [] line = "cycle"  -> [s EXCEPT !.matched = @ + Cardinality(s.memory), !.threshold = Threshold(s), !.clock = @ + 1]
    [] line = "import" -> [s EXCEPT !.import = 1]
    [] line = "restrict" -> [s EXCEPT !.restricted = TRUE]
    [] line = "set1" -> [s EXCEPT !.setting = 1]
    [] line = "set2" -> [s EXCEPT !.setting = 2]
Prints(s, line) == <<line, s.memory, s.clock, s.threshold, s.setting, s.restricted>>
ResetState(s) == [v \in Vars |-> IF v = "setting" \/ v \in Missed THEN s[v] ELSE Init0[v]]
Init == a = Init0 /\ b = Init0 /\ phase = "before" /\ n = 0 /\ same = TRUE
Before == /\ phase = "before" /\ n < Steps /\ n' = n + 1
          /\ \E line \in Lines : a' = Do(a, line)
          /\ UNCHANGED <<b, phase, same>>
DoReset == /\ phase = "before" /\ phase' = "after" /\ n' = 0
           /\ a' = ResetState(a) /\ b' = [Init0 EXCEPT !.setting = a.setting]
           /\ UNCHANGED same
After == /\ phase = "after" /\ n < Steps /\ n' = n + 1
         /\ \E line \in Lines : a' = Do(a, line) /\ b' = Do(b, line) /\ same' = (same /\ Prints(a, line) = Prints(b, line))
         /\ UNCHANGED phase
Next == Before \/ DoReset \/ After
Spec == Init /\ [][Next]_vars
Alike == same /\ (phase = "after" => a = b)
=============================================================================
