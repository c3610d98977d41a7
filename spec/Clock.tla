------------------------------- MODULE Clock -------------------------------
(* The clock (C17): what a line costs, and how time proceeds while inputs    *)
(* are processed; the feedback of an executed operation is an input that     *)
(* arrives within a cycle.                                                   *)
EXTENDS Integers, Sequences
Start == 1
\* cycles that a line asks for by itself
Cost(kind, n) == CASE kind \in {"sentence", "empty"} -> 1
                   [] kind = "number" -> n
                   [] OTHER -> 0
\* the clock one step back, for an input that shares the time of the last cycle
Back(now) == IF now > Start THEN now - 1 ELSE now
\* time of an input event
InputTime(eternal, now) == IF eternal THEN -1 ELSE now
=============================================================================
