----------------------------- MODULE ClockModel ----------------------------
(* Exhaustive: lines of every kind, cycles that execute operations or not.   *)
EXTENDS Clock, TLC, FiniteSets
CONSTANTS Lines, MaxN
VARIABLES now,      \* the clock
          todo,     \* work going on, innermost last: ["line", cycles still asked for] or ["cycle", start, fed]
          lines,    \* lines read
          start,    \* clock when the line was read
          events,   \* times of events
          cycles,   \* cycles completed in this line
          feedback, \* operations executed in this line
          kind, last,  \* the line; the time of the last cycle
          acted,    \* an operation was executed in the last line that took a cycle
          fresh     \* a cycle has passed since the clock was last set back
vars == <<now, todo, lines, start, events, cycles, feedback, kind, last, fresh, acted>>
Init == now = Start /\ todo = <<>> /\ lines = 0 /\ start = Start /\ events = {} /\ cycles = 0 /\ feedback = 0 /\ kind = "-" /\ last = 0 /\ fresh = TRUE /\ acted = FALSE
Top == todo[Len(todo)]
Pop == SubSeq(todo, 1, Len(todo) - 1)
Read(k, n) ==
  /\ todo = <<>> /\ lines < Lines
  /\ lines' = lines + 1 /\ kind' = k /\ cycles' = 0 /\ feedback' = 0
  /\ CASE k = "concurrent" -> fresh /\ fresh' = FALSE /\ UNCHANGED <<last, acted>> /\ now' = Back(now) /\ start' = Back(now) /\ UNCHANGED <<todo, events>>
       [] k = "reset" -> last' = 0 /\ acted' = FALSE /\ fresh' = TRUE /\ now' = Start /\ start' = Start /\ events' = {} /\ todo' = <<>>
       [] OTHER -> /\ UNCHANGED <<now, fresh, last, acted>> /\ start' = now
                   /\ todo' = <<[k |-> "line", n |-> Cost(k, n), t |-> 0, fed |-> FALSE]>>
                   /\ events' = IF k = "sentence" THEN events \cup {now} ELSE events
Begin == todo # <<>> /\ Top.k = "line" /\ Top.n > 0
         /\ todo' = Append([todo EXCEPT ![Len(todo)].n = @ - 1], [k |-> "cycle", n |-> 0, t |-> now, fed |-> FALSE])
         /\ acted' = (Len(todo) > 1 /\ acted)
         /\ UNCHANGED <<now, lines, start, events, cycles, feedback, kind, last, fresh>>
\* an operation is executed: its feedback is entered, which takes a cycle of its own
Feed == todo # <<>> /\ Top.k = "cycle" /\ ~Top.fed /\ feedback < 2
        /\ feedback' = feedback + 1 /\ acted' = TRUE
        /\ events' = events \cup {now}
        /\ todo' = Append([todo EXCEPT ![Len(todo)].fed = TRUE], [k |-> "line", n |-> 1, t |-> 0, fed |-> FALSE])
        /\ UNCHANGED <<now, lines, start, cycles, kind, last, fresh>>
\* a goal that arises in this cycle (conclusions have the times of earlier events)
Derive == todo # <<>> /\ Top.k = "cycle"
          /\ events' = events \cup {Top.t}
          /\ UNCHANGED <<now, todo, lines, start, cycles, feedback, kind, last, fresh, acted>>
Finish == /\ todo # <<>> /\ (Top.k = "cycle" \/ Top.n = 0)
          /\ todo' = Pop
          /\ IF Top.k = "cycle" THEN (now' = now + 1 /\ cycles' = cycles + 1 /\ last' = Top.t /\ fresh' = TRUE) ELSE UNCHANGED <<now, cycles, last, fresh>>
          /\ UNCHANGED <<lines, start, events, feedback, kind, acted>>
Next == \/ \E k \in {"sentence", "question", "empty", "comment", "command", "concurrent", "reset"} : Read(k, 0)
        \/ \E n \in 0..MaxN : Read("number", n)
        \/ Begin \/ Feed \/ Derive \/ Finish
Spec == Init /\ [][Next]_vars
Costs == todo = <<>> => now = start + cycles
Exact == todo = <<>> /\ feedback = 0 => cycles = CASE kind \in {"sentence", "empty"} -> 1 [] kind = "number" -> cycles [] OTHER -> 0
NoFuture == \A e \in events : Start <= e /\ e <= now
Shares == kind = "concurrent" /\ last > 0 /\ ~acted => now = last   \* the time of the predecessor
=============================================================================
