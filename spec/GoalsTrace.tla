----------------------------- MODULE GoalsTrace ----------------------------
(* The goals in recorded whole-system runs: sequence goals (C14), subgoals   *)
(* by learned implications and nowhere else (C23).                           *)
EXTENDS Rec, Goals
CONSTANTS Property, Layers
VARIABLES con, spk, gsp, lnk,   \* live concepts: terms, belief spikes, goal spikes, tables
          sel,                  \* goals selected for processing
          todo,                 \* what the open sequence goal may lead to
          given,                \* <<c, imp>> that have given a subgoal in the open goal section
          sub                   \* the subgoal point that the next added event belongs to
tvars == <<l, stack, con, spk, gsp, lnk, sel, todo, given, sub>>
C14 == Property = "C14"
C23 == Property = "C23"
NoNums == [x \in {} |-> 0]
None == [i \in {} |-> 0]
Without(f, i) == [j \in DOMAIN f \ {i} |-> f[j]]
RECURSIVE Fold(_, _)
Fold(chs, st) ==
  IF chs = <<>> THEN st
  ELSE LET h == Head(chs) IN Fold(Tail(chs),
    CASE h.k = "con-" -> [con |-> Without(st.con, h.id), spk |-> Without(st.spk, h.id), gsp |-> Without(st.gsp, h.id), lnk |-> Without(st.lnk, h.id)]
      [] h.k = "con+" -> [st EXCEPT !.con = (h.id :> h.t) @@ @, !.lnk = (h.id :> None) @@ @]
      [] h.k = "slot" /\ h.s = "s" -> [st EXCEPT !.spk = (h.id :> h.e) @@ @]
      [] h.k = "slot" /\ h.s = "g" -> [st EXCEPT !.gsp = (h.id :> h.e) @@ @]
      [] h.k = "link" -> [st EXCEPT !.lnk[h.id] = (h.op :> h.tab) @@ @]
      [] OTHER -> st)
Now == Frame("Cycle").x
SelectedIn(e) == \E k \in 1..Len(sel) : sel[k].e = e
GoalNear(e, r) == e.ty = "g" /\ e.t = r.t /\ e.st = r.st /\ e.o = r.o /\ Near(e.f, r.f) /\ Near(e.c, r.c)
\* ---- C14
SequenceDone(f) == todo = {} \/ Fulfilled \in todo
AddedPursuit == \E r \in todo : /\ ~r.done
                                /\ GoalNear(E.e, [r.e EXCEPT !.t = r.t])
                                /\ Near(E.pr, Mul(Top.pr, Exp(Tv(E.e))))
                                /\ ~E.in /\ ~E.rev /\ E.layer = Top.x
\* ---- C23
Held(f, imp) == imp.src \in DOMAIN f.con
TablesOf(f, c) == UNION { Range(f.lnk[c][op]) : op \in DOMAIN f.lnk[c] }
Expected(f) == IF sel = <<>> THEN {} ELSE
  UNION { { <<c, imp>> : imp \in { i \in TablesOf(f, c) : Held(f, i) /\ Applies(f.gsp[c], i) } } :
            c \in { i \in DOMAIN f.con : Related(sel[1].e.t, f.con[i]) /\ Matches(f.con[i], sel[1].e.t) } }
PointOk(f) == /\ Top.k = "Goals" /\ sub = NoFrame
              /\ <<E.c, E.imp>> \notin given
              /\ \E k \in 1..Len(sel) : Related(sel[k].e.t, f.con[E.c]) /\ Matches(f.con[E.c], sel[k].e.t) /\ E.pr = sel[k].p
              /\ E.c \in DOMAIN f.gsp /\ E.e = f.gsp[E.c]
              /\ E.imp \in TablesOf(f, E.c) /\ Held(f, E.imp)
              /\ Applies(E.e, E.imp)
AddedSubgoal == /\ sub # NoFrame
                /\ \E r \in Subgoals(sub.e, sub.imp, Now) : GoalNear(E.e, r)
                /\ Near(E.pr, Mul(sub.pr, Exp(Tv(E.e)))) /\ ~E.in /\ ~E.rev /\ E.layer = Top.x
\* goals held by concepts: the newest, and in goal processing revised with the selected goal
SlotOk(h) ==
  LET old == IF h.id \in DOMAIN gsp THEN gsp[h.id] ELSE NoEvent
  IN CASE Top.k = "Activate" -> h.e.t = Top.e.t \/ HasVar(Top.e.t)
       [] Top.k = "Goals"    -> \E k \in 1..Len(sel) : \E r \in RevisionAndChoice(old, sel[k].e) : SameE(r, h.e)
       [] OTHER -> FALSE
\* a goal is queued only where it is added, one level further
RECURSIVE Count(_, _)
Count(q, e) == Cardinality({ k \in 1..Len(q) : q[k].e = e })
QueueOk(h) == Top.k = "AddEvent" /\ h.l >= 0 =>
  Top.e.ty = "g" /\ h.l = Min2(Layers - 1, Top.layer + 1) /\ \E k \in 1..Len(h.items) : SameE(h.items[k].e, Top.e)
ChangesOk == C23 => \A k \in 1..Len(E.ch) : /\ E.ch[k].k = "slot" /\ E.ch[k].s = "g" => (stack # <<>> /\ SlotOk(E.ch[k]))
                                            /\ E.ch[k].k = "q" => QueueOk(E.ch[k])

Kept == UNCHANGED <<sel, todo, given, sub>>
Step(f) ==
  CASE E.k = "Pop" /\ E.ph = "e" -> (sel' = IF Top.l >= 0 THEN E.goals ELSE sel) /\ UNCHANGED <<todo, given, sub>>
    [] E.k = "Goals" /\ E.ph = "b" -> given' = {} /\ sub' = NoFrame /\ UNCHANGED <<sel, todo>>
    [] E.k = "Goals" /\ E.ph = "e" -> (C23 => sub = NoFrame /\ (sel # <<>> => given = Expected(f))) /\ Kept
    [] E.k = "Execute" /\ E.ph = "b" -> given = {} /\ sub = NoFrame /\ Kept
    [] E.k = "Execute" /\ E.ph = "e" -> given' = {} /\ sel' = <<>> /\ sub' = NoFrame /\ UNCHANGED todo   \* nothing more in the open section
    [] E.k = "GoalSequence" /\ E.ph = "b" ->
         /\ C23 => SelectedIn(E.e)
         /\ todo' = IF C14 /\ IsOp(E.e.t, Seq2) THEN Decompose(E.e, f.con, f.spk, Now) ELSE {}
         /\ UNCHANGED <<sel, given, sub>>
    [] E.k = "GoalSequence" /\ E.ph = "e" -> (C14 => SequenceDone(f)) /\ todo' = {} /\ UNCHANGED <<sel, given, sub>>
    [] E.k = "Subgoal" -> (C23 => PointOk(f)) /\ given' = given \cup {<<E.c, E.imp>>} /\ sub' = E /\ UNCHANGED <<sel, todo>>
    [] E.k = "AddEvent" /\ E.ph = "b" /\ E.e.ty = "g" ->
         /\ CASE Top.k = "GoalSequence" -> (C14 => AddedPursuit) /\ (C23 => IsOp(Top.e.t, Seq2)) /\ todo' = {} /\ UNCHANGED sub
              [] Top.k = "Goals" -> (C23 => AddedSubgoal) /\ sub' = NoFrame /\ UNCHANGED todo
              [] Top.k = "Input" -> (C23 => Top.goal /\ E.in /\ E.e.t = Top.t) /\ UNCHANGED <<todo, sub>>
              [] OTHER -> FALSE
         /\ UNCHANGED <<sel, given>>
    [] OTHER -> Kept
TraceInit == l = 1 /\ stack = <<>> /\ con = None /\ spk = None /\ gsp = None /\ lnk = None /\ sel = <<>> /\ todo = {} /\ given = {} /\ sub = NoFrame
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1 /\ WellNested /\ stack' = StackAfter
  /\ IF E.k = "Reset" THEN con' = None /\ spk' = None /\ gsp' = None /\ lnk' = None /\ sel' = <<>> /\ todo' = {} /\ given' = {} /\ sub' = NoFrame
     ELSE \E f \in {Fold(E.ch, [con |-> con, spk |-> spk, gsp |-> gsp, lnk |-> lnk])} :
            /\ con' = f.con /\ spk' = f.spk /\ gsp' = f.gsp /\ lnk' = f.lnk
            /\ ChangesOk
            /\ Step(f)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
