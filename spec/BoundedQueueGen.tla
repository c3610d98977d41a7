-------------------------- MODULE BoundedQueueGen --------------------------
(* Behaviours of BoundedQueue, printed as scripts for replay in the code.     *)
EXTENDS BoundedQueue, TLC, Json
VARIABLE h
GInit == /\ \E n \in 1..9 : cells = 0..(n-1) /\ h = << "init " \o ToString(n) >>
         /\ q = [c \in {} |-> 0] /\ sorted = TRUE
FirstFree == MinOf(cells \ DOMAIN q)
Log(s) == h' = Append(h, s)
Pr == {0, 1, 2, 3, 50}
GNext == \/ \E p \in Pr : ~Full /\ PushRoom(p, FirstFree) /\ Log("push " \o ToString(p))
         \/ \E p \in Pr, c \in cells : Full /\ q[c] = MinOf(Prios(q)) /\ PushEvict(p, c, c, q[c]) /\ Log("push " \o ToString(p))
         \/ \E p \in Pr : PushReject(p) /\ Log("push " \o ToString(p))
         \/ \E c \in DOMAIN q : PopMax(c, q[c]) /\ Log("popmax")
         \/ \E c \in DOMAIN q : PopMin(c, q[c]) /\ Log("popmin")
         \/ PopEmpty /\ Log("popmax")
         \/ \E c \in DOMAIN q, p \in Pr : SetPrio(c, p) /\ Log("set " \o ToString(c) \o " " \o ToString(p))
         \/ ~sorted /\ Rebuild /\ Log("rebuild")
GSpec == GInit /\ [][GNext]_<<qvars, h>>
Emit == TLCGet("level") # 55 \/ PrintT("VERIF " \o ToJson(h))
=============================================================================
