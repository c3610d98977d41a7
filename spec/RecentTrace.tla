---------------------------- MODULE RecentTrace ----------------------------
(* The memory of recent events in whole-system runs (C22): each experienced  *)
(* event's concept, and each variable-free sequence's, is recorded once,     *)
(* newest first, up to the capacity.                                         *)
EXTENDS Rec
CONSTANT RingSize
VARIABLES con,   \* live concepts: id -> [t, cell]
          ring   \* cells, newest first
tvars == <<l, stack, con, ring>>
Property(t) == IsOp(t, Prop) /\ t[2][1] # Prod
Eligible(fr) == CASE fr.k = "NewBelief" -> fr.e.o # Eternal /\ ~Property(fr.e.t) /\ ~IsOp(fr.e.t, TImp)
                  [] fr.k = "Sensorimotor" -> IsOp(fr.e.t, Seq2) /\ ~HasVarIn(fr.e.t, DepVars \cup IndepVars)
                  [] OTHER -> FALSE
CellsOf(c, t) == { c[i].cell : i \in { i \in DOMAIN c : c[i].t = t } }
Add(r, x) == IF Len(r) < RingSize THEN <<x>> \o r ELSE <<x>> \o SubSeq(r, 1, RingSize - 1)
Shows(r, ids, c) == Len(r) = Len(ids) /\ \A k \in 1..Len(ids) : ids[k] \in DOMAIN c /\ c[ids[k]].cell = r[k]
RECURSIVE Fold(_, _)
Fold(chs, st) ==
  IF chs = <<>> \/ ~st.ok THEN st
  ELSE LET h == Head(chs) IN Fold(Tail(chs),
    CASE h.k = "con-" -> [st EXCEPT !.con = [i \in DOMAIN @ \ {h.id} |-> @[i]]]
      [] h.k = "con+" -> [st EXCEPT !.con = (h.id :> [t |-> h.t, cell |-> h.cell]) @@ @]
      [] h.k = "ring" -> IF Shows(st.ring, h.ids, st.con) /\ ~(RingSize = 1 /\ Eligible(Top)) THEN st
                         ELSE LET x == CellsOf(st.con, Top.e.t) IN
                              [st EXCEPT !.ok = Eligible(Top) /\ ~st.added /\ x # {} /\ Shows(Add(st.ring, CHOOSE y \in x : TRUE), h.ids, st.con),
                                         !.added = TRUE, !.ring = IF x = {} THEN @ ELSE Add(@, CHOOSE y \in x : TRUE)]
      [] OTHER -> st)
Folded == Fold(E.ch, [ok |-> TRUE, con |-> con, ring |-> ring, added |-> IF stack = <<>> THEN FALSE ELSE Top.added])
Complete(f) == Eligible(Top) /\ CellsOf(f.con, Top.e.t) # {} => f.added
TraceInit == l = 1 /\ stack = <<>> /\ con = [i \in {} |-> 0] /\ ring = <<>>
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1 /\ WellNested
  /\ IF E.k = "Reset" THEN con' = [i \in {} |-> 0] /\ ring' = <<>> /\ stack' = <<>>
     ELSE \E f \in {Folded} :
       /\ f.ok /\ con' = f.con /\ ring' = f.ring
       /\ (E.ph = "e" => Complete(f))
       /\ stack' = LET s0 == IF stack = <<>> THEN <<>> ELSE [stack EXCEPT ![Len(stack)].added = f.added]
                   IN CASE E.ph = "b" -> Append(s0, [added |-> FALSE] @@ E) [] E.ph = "e" -> Pop(s0) [] OTHER -> s0
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
