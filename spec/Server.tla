-------------------------------- MODULE Server -----------------------------
(* The UDP server as its users see it (C18): what may happen next, given     *)
(* what has happened.  Threads are numbers, 0 the one that starts and stops. *)
(* An event is a record with its kind k and, mostly, its thread th.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Zero == [s |-> 0, n |-> 0]
Billion == 1000000000
Sum(a, b) == IF a.n >= Billion - b.n THEN [s |-> a.s + b.s + 1, n |-> a.n - (Billion - b.n)] ELSE [s |-> a.s + b.s, n |-> a.n + b.n]
Fresh(timestep) ==
  [phase |-> "starting", step |-> timestep,
   srv |-> {},          \* the server's threads
   all |-> {0}, begun |-> {0}, ended |-> {},
   holder |-> -1,       \* who has the lock
   using |-> -1,        \* who uses the reasoner
   what |-> "",
   reset |-> -1,        \* who has to initialize the reasoner, as a reset was asked for
   inbox |-> <<>>,      \* datagrams that have not been received
   taken |-> <<>>,      \* datagrams received and not processed
   rest |-> [x \in {} |-> Zero]]   \* how long the threads that did a cycle have slept since
Others(m, th) == (m.all \ m.ended) \ {th}
ServerEnded(m) == m.srv \subseteq m.ended
MayUse(m, e) ==
  /\ m.using = -1
  /\ m.holder = e.th \/ Others(m, e.th) = {}
  /\ m.reset # -1 => m.reset = e.th /\ e.what = "init"
  /\ CASE e.what = "text"   -> e.th \in m.srv /\ m.taken # <<>> /\ e.text = Head(m.taken)
       [] e.what = "init"   -> m.phase = "starting" \/ m.reset = e.th
       [] e.what = "cycles" -> e.th \in m.srv => e.x = 1 /\ (e.th \in DOMAIN m.rest => m.rest[e.th] = m.step)
       [] e.what = "input"  -> e.th \notin m.srv
       [] OTHER -> FALSE
Allowed(m, e) ==
  CASE e.k = "create"  -> TRUE
    [] e.k = "begin"   -> e.th \in m.all \ m.begun
    [] e.k = "end"     -> /\ e.th \in m.begun \ m.ended /\ m.holder # e.th /\ m.using # e.th
                          /\ e.th \in m.srv => m.phase = "stopping"
    [] e.k = "started" -> m.phase = "starting" /\ m.srv # {} /\ m.srv \subseteq m.begun
    [] e.k = "send"    -> TRUE
    [] e.k = "take"    -> m.inbox # <<>> /\ e.text = Head(m.inbox) /\ (m.phase # "stopping" => m.taken = <<>>)
    [] e.k = "lock"    -> m.holder = -1
    [] e.k = "unlock"  -> m.holder = e.th /\ m.using # e.th /\ m.reset # e.th
    [] e.k = "use"     -> IF e.what = "stats" THEN ServerEnded(m) ELSE MayUse(m, e)
    [] e.k = "used"    -> m.using = e.th
    [] e.k = "pause"   -> TRUE
    [] e.k = "settled" -> m.inbox = <<>> /\ m.taken = <<>>
    [] e.k = "stop"    -> m.phase = "running"
    [] e.k = "stopped" -> m.phase = "stopping" /\ ServerEnded(m)
    [] e.k = "over"    -> m.phase = "stopped"
    [] OTHER -> FALSE
After(m, e) ==
  CASE e.k = "create"  -> [m EXCEPT !.all = @ \cup {e.th}, !.srv = IF m.phase = "starting" THEN @ \cup {e.th} ELSE @]
    [] e.k = "begin"   -> [m EXCEPT !.begun = @ \cup {e.th}]
    [] e.k = "end"     -> [m EXCEPT !.ended = @ \cup {e.th}]
    [] e.k = "started" -> [m EXCEPT !.phase = "running"]
    [] e.k = "send"    -> [m EXCEPT !.inbox = Append(@, e.text)]
    [] e.k = "take"    -> [m EXCEPT !.inbox = Tail(@), !.taken = Append(@, e.text)]
    [] e.k = "lock"    -> [m EXCEPT !.holder = e.th]
    [] e.k = "unlock"  -> [m EXCEPT !.holder = -1]
    [] e.k = "use" /\ e.what # "stats" ->
                          [m EXCEPT !.using = e.th, !.what = e.what, !.reset = -1,
                                    !.taken = IF e.what = "text" THEN Tail(@) ELSE @,
                                    !.rest = IF e.what = "cycles" THEN (e.th :> Zero) @@ @ ELSE @]
    [] e.k = "used"    -> [m EXCEPT !.using = -1, !.reset = IF m.what = "text" /\ e.r = 1 THEN e.th ELSE -1]
    [] e.k = "pause"   -> IF e.th \in DOMAIN m.rest THEN [m EXCEPT !.rest[e.th] = Sum(@, [s |-> e.s, n |-> e.n])] ELSE m
    [] e.k = "stop"    -> [m EXCEPT !.phase = "stopping"]
    [] e.k = "stopped" -> [m EXCEPT !.phase = "stopped"]
    [] OTHER -> m
=============================================================================
