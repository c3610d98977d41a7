---------------------------- MODULE BoundedQueue ----------------------------
(* A bounded priority queue over storage cells (C03).  The queue maps the     *)
(* cells in use to their priorities; every other cell is free.  One action   *)
(* per public call; the call's result is an argument of the action, so that  *)
(* the same actions judge recorded calls (BoundedQueueTrace) and generate    *)
(* the behaviours that are replayed in the code.                             *)
EXTENDS Integers, FiniteSets, Sequences

VARIABLES cells,   \* the storage cells (fixed by Init, one queue at a time)
          q,       \* cells in use -> priority
          sorted   \* FALSE after an in-place change until the next rebuild
qvars == <<cells, q, sorted>>

None == -1
Prios(f)  == { f[c] : c \in DOMAIN f }
MinOf(S)  == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S)  == CHOOSE x \in S : \A y \in S : x >= y
Full      == DOMAIN q = cells
Restrict(f, D) == [c \in D |-> f[c]]
Put(f, c, p)   == [x \in DOMAIN f \cup {c} |-> IF x = c THEN p ELSE f[x]]

Reset(cap) == /\ cells' = 0..(cap-1) /\ q' = [c \in {} |-> 0] /\ sorted' = TRUE

\* push into a queue that has room: some free cell takes the item, nothing else moves
PushRoom(p, cell) ==
  /\ sorted /\ ~Full
  /\ cell \in cells \ DOMAIN q
  /\ q' = Put(q, cell, p) /\ UNCHANGED <<cells, sorted>>

\* push into a full queue: one lowest item goes, its cell takes the new item
PushEvict(p, cell, ev, evp) ==
  /\ sorted /\ Full /\ cells # {}
  /\ evp = MinOf(Prios(q)) /\ p >= evp
  /\ ev \in DOMAIN q /\ q[ev] = evp
  /\ cell = ev
  /\ q' = Put(q, cell, p) /\ UNCHANGED <<cells, sorted>>

PushReject(p) ==
  /\ sorted /\ Full
  /\ p < MinOf(Prios(q))
  /\ UNCHANGED qvars

Pop(cell, p, best) ==
  /\ sorted /\ cell \in DOMAIN q /\ q[cell] = p /\ p = best
  /\ q' = Restrict(q, DOMAIN q \ {cell}) /\ UNCHANGED <<cells, sorted>>
PopMax(cell, p) == Pop(cell, p, MaxOf(Prios(q)))
PopMin(cell, p) == Pop(cell, p, MinOf(Prios(q)))
PopEmpty == sorted /\ DOMAIN q = {} /\ UNCHANGED qvars

SetPrio(cell, p) == /\ cell \in DOMAIN q /\ q' = [q EXCEPT ![cell] = p] /\ sorted' = FALSE /\ UNCHANGED cells
Rebuild == sorted' = TRUE /\ UNCHANGED <<cells, q>>

\* ---------------------------------------------------------------- exhaustive configuration
CONSTANTS Cap, MaxPrio
Init == cells = 0..(Cap-1) /\ q = [c \in {} |-> 0] /\ sorted = TRUE
P == 0..MaxPrio
Next == \/ \E p \in P, c \in cells : PushRoom(p, c)
        \/ \E p \in P, c \in cells, m \in P : PushEvict(p, c, c, m)
        \/ \E p \in P : PushReject(p)
        \/ \E c \in cells, p \in P : PopMax(c, p) \/ PopMin(c, p)
        \/ PopEmpty
        \/ \E c \in cells, p \in P : SetPrio(c, p)
        \/ Rebuild
Spec == Init /\ [][Next]_qvars

Bounded == Cardinality(DOMAIN q) <= Cap /\ DOMAIN q \subseteq cells
\* an item leaves only by being popped as an extreme or evicted as a lowest one
KeepsBest == [][\A c \in DOMAIN q : (c \notin DOMAIN q' =>
                    (q[c] = MaxOf(Prios(q)) \/ q[c] = MinOf(Prios(q))))]_qvars
\* the sum of what is in the queue never shrinks by a push
PushNeverWorsens == [][Full /\ DOMAIN q' = DOMAIN q /\ sorted /\ sorted' =>
                        MinOf(Prios(q')) >= MinOf(Prios(q))]_qvars
=============================================================================
