--------------------------- MODULE AttentionTrace ---------------------------
(* Event queues and attention in recorded whole-system runs (C20).           *)
EXTENDS Rec, Attention
CONSTANTS BeliefCap, GoalCap, Recent
VARIABLES con, bel, spk, gsp,   \* live concepts: terms, beliefs, latest events, goals
          cp,                   \* priorities of concepts
          qs,                   \* queues
          fresh,                \* the last line began the adding of an event
          cy                    \* cycles going on, one inside the other: step: sections begun, bels, sel: events taken (last) for
                                \* processing, seen: events processed since, exd: an operation was executed in this goal step
tvars == <<l, stack, con, bel, spk, gsp, cp, qs, fresh, cy>>
NewCycle == [step |-> 0, bels |-> {}, sel |-> {}, seen |-> {}, exd |-> FALSE]
Cy == IF cy = <<>> THEN NewCycle ELSE cy[Len(cy)]
NoNums == [x \in {} |-> 0]
None == [i \in {} |-> 0]
Without(f, i) == [j \in DOMAIN f \ {i} |-> f[j]]
NoQueues == [q \in -1..Layers-1 |-> {}]
Items(s) == { s[k] : k \in 1..Len(s) }
ConceptOf(t) == { i \in DOMAIN con : con[i] = t }
Slot(f, t) == IF \E i \in DOMAIN f : i \in ConceptOf(t) THEN f[CHOOSE i \in DOMAIN f : i \in ConceptOf(t)] ELSE NoEvent
RECURSIVE Fold(_, _)
Fold(chs, st) ==
  IF chs = <<>> THEN st
  ELSE LET h == Head(chs) IN Fold(Tail(chs),
    CASE h.k = "con-" -> [st EXCEPT !.con = Without(@, h.id), !.bel = Without(@, h.id), !.spk = Without(@, h.id), !.gsp = Without(@, h.id), !.cp = Without(@, h.id)]
      [] h.k = "con+" -> [st EXCEPT !.con = (h.id :> h.t) @@ @, !.cp = (h.id :> 0) @@ @]
      [] h.k = "slot" /\ h.s = "b" -> [st EXCEPT !.bel = (h.id :> h.e) @@ @]
      [] h.k = "slot" /\ h.s = "s" -> [st EXCEPT !.spk = (h.id :> h.e) @@ @]
      [] h.k = "slot" /\ h.s = "g" -> [st EXCEPT !.gsp = (h.id :> h.e) @@ @]
      [] h.k = "use" -> [st EXCEPT !.cp[h.id] = h.p]
      [] h.k = "q" -> [st EXCEPT !.qs[h.l] = Items(h.items), !.ok = st.ok /\ Cardinality(Items(h.items)) = Len(h.items)]
      [] OTHER -> st)
NearP(a, b) == Abs(a - b) <= PTol
NearItem(a, b) == a.e = b.e /\ NearP(a.p, b.p)
NearItems(a, b) == a = b \/ (Cardinality(a) = Cardinality(b) /\ \A i \in a : \E j \in b : NearItem(i, j))
NearQueues(a, b) == \A q \in DOMAIN a : NearItems(a[q], b[q])

\* the event that is being added is queued, or it is not for one of the reasons
NewPriority == Priority(Top.e.t, Top.pr, Top.in \/ Top.rev)
AddOk(f) ==
  LET e == Top.e
      queues == IF e.ty = "b" THEN {-1} ELSE 0..Layers-1
      b == Slot(bel, e.t)  s == Slot(spk, e.t)  g == Slot(gsp, e.t)
      after == Queued(qs, e, IF Top.zero THEN -1 ELSE NewPriority, Top.layer, IF e.ty = "b" THEN BeliefCap ELSE GoalCap,
                      \E q \in queues : Repeats(e, qs[q]), \E q \in queues : MayRepeat(e, qs[q]), Known(e, b, s, g), MayBeKnown(e, b, s, g))
  IN \/ E.k = "NewBelief" /\ E.ph = "b" /\ E.e = e /\ NearP(E.pr, NewPriority) /\ Accepted(e, E.pr) /\ ~Top.zero /\ \E n \in after : NearQueues(n, f.qs)
     \/ E.k = "AddEvent" /\ E.ph = "e" /\ e.ty = "g" /\ \E n \in after : NearQueues(n, f.qs)
     \/ E.k = "AddEvent" /\ E.ph = "e" /\ e.ty = "b" /\ ~(MustAccept(e, NewPriority) /\ ~Top.zero) /\ f.qs = qs
PopOk(f) ==
  LET got == IF Top.l = -1 THEN E.beliefs ELSE E.goals
  IN IF qs[Top.l] = {} THEN got = <<>> /\ f.qs = qs
     ELSE /\ Len(got) = 1 /\ got[1] \in Best(qs[Top.l])
          /\ f.qs = [qs EXCEPT ![Top.l] = @ \ {got[1]}]
FadeOk(f) ==
  /\ \A q \in DOMAIN qs : /\ Cardinality(f.qs[q]) = Cardinality(qs[q])
                          /\ \A i \in qs[q] : \E j \in f.qs[q] : j.e = i.e /\ NearP(j.p, Faded(i.p))
  /\ \A i \in DOMAIN con : NearP(f.cp[i], Mul(cp[i], Fading))
Cleared(f) == \A q \in DOMAIN qs : f.qs[q] = IF q = -1 THEN qs[-1] ELSE {}
QueuesOk(f) ==
  CASE Top.k = "AddEvent" /\ fresh -> AddOk(f)
    [] E.k = "Pop" /\ E.ph = "e" -> PopOk(f)
    [] E.k = "Forgetting" /\ E.ph = "e" -> FadeOk(f)
    [] OTHER -> f.qs = qs \/ (Cleared(f) /\ (E.k = "Execute" \/ Inside("Execute") \/ Cy.exd))
\* concepts draw attention from the beliefs and questions about them
ConceptsOk(f) ==
  \/ f.cp = cp
  \/ E.k = "Forgetting"
  \/ \A i \in DOMAIN f.cp : f.cp[i] = (IF i \in DOMAIN cp THEN cp[i] ELSE 0)
       \/ (Top.k = "NewBelief" /\ f.con[i] = Top.e.t /\ NearP(f.cp[i], Max2(IF i \in DOMAIN cp THEN cp[i] ELSE 0, Top.pr)))
       \/ (Top.k \in {"Line", "-"} /\ i \in DOMAIN cp /\ f.cp[i] = Max2(cp[i], 10000000))
Raised(f) == (E.k = "NewBelief" /\ E.ph = "e" /\ ~IsOp(Top.e.t, TImp)) =>
                \A i \in DOMAIN f.con : f.con[i] = Top.e.t => f.cp[i] >= Top.pr - PTol

\* ---- what is taken is processed
Measured(t) == IsOp(t, Prop) /\ ~IsOp(t[2], Prod)
Processable(e, now) == e.o # Eternal /\ now - e.o < Recent /\ ~Measured(e.t)
SeenAll(now) == \A e \in Cy.sel : Processable(e, now) => e \in Cy.seen
Sections == {"Pop", "Beliefs", "Goals", "Inference", "Forgetting"}
CycleOk ==
  CASE E.ph = "b" /\ Top.k = "Cycle" ->
         (CASE E.k = "Pop" -> (E.l = -1 /\ Cy.step = 0) \/ (E.l >= 0 /\ Cy.step = 2*E.l + 2)
            [] E.k = "Beliefs" -> Cy.step = 1
            [] E.k = "Goals" -> Cy.step = 2*E.x + 3
            [] E.k = "Inference" -> Cy.step = 2*Layers + 2
            [] E.k = "Forgetting" -> Cy.step = 2*Layers + 3
            [] OTHER -> TRUE)
    [] E.ph = "e" /\ E.k = "Cycle" -> Cy.step = 2*Layers + 4
    [] E.ph = "e" /\ E.k = "Beliefs" -> SeenAll(Top.x)
    [] E.ph = "e" /\ E.k \in {"Goals", "Inference"} -> Cy.sel \subseteq Cy.seen
    [] E.k = "Sensorimotor" /\ E.ph = "b" /\ Top.k = "Goals" -> E.e \in Cy.sel \ Cy.seen
    [] E.k = "GoalSequence" /\ E.ph = "b" -> E.e \in Cy.sel \ Cy.seen
    [] E.k = "Single" -> E.e \in Cy.sel
    [] OTHER -> TRUE
Step1(c) ==
  CASE E.ph = "b" /\ Top.k = "Cycle" /\ E.k \in Sections -> [c EXCEPT !.step = @ + 1, !.seen = {}, !.sel = IF E.k = "Inference" THEN c.bels ELSE @, !.exd = FALSE]
    [] E.ph = "e" /\ E.k = "Pop" -> IF Top.l = -1 THEN [c EXCEPT !.sel = { i.e : i \in Items(E.beliefs) }, !.bels = { i.e : i \in Items(E.beliefs) }]
                                                  ELSE [c EXCEPT !.sel = { i.e : i \in Items(E.goals) }]
    [] E.ph = "b" /\ E.k = "Sensorimotor" /\ Top.k \in {"Beliefs", "Goals"} -> [c EXCEPT !.seen = @ \cup {E.e}]
    [] E.ph = "b" /\ E.k = "GoalSequence" /\ IsOp(E.e.t, Seq2) -> [c EXCEPT !.seen = @ \cup {E.e}]
    [] E.k = "Single" -> [c EXCEPT !.seen = @ \cup {E.e}]
    [] E.k = "Execute" -> [c EXCEPT !.exd = TRUE]
    [] OTHER -> c
Steps ==
  /\ fresh' = (E.k = "AddEvent" /\ E.ph = "b")
  /\ cy' = (IF E.k = "Cycle" THEN IF E.ph = "b" THEN Append(cy, NewCycle) ELSE SubSeq(cy, 1, Len(cy) - 1)
            ELSE IF cy = <<>> THEN cy ELSE [cy EXCEPT ![Len(cy)] = Step1(@)])
Clear == /\ con' = None /\ bel' = None /\ spk' = None /\ gsp' = None /\ cp' = None /\ qs' = NoQueues
         /\ fresh' = FALSE /\ cy' = <<>>
TraceInit == /\ l = 1 /\ stack = <<>> /\ con = None /\ bel = None /\ spk = None /\ gsp = None /\ cp = None /\ qs = NoQueues
             /\ fresh = FALSE /\ cy = <<>>
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1 /\ WellNested /\ stack' = StackAfter
  /\ IF E.k = "Reset" THEN E.ch = <<>> /\ Clear
     ELSE \E f \in {Fold(E.ch, [ok |-> TRUE, con |-> con, bel |-> bel, spk |-> spk, gsp |-> gsp, cp |-> cp, qs |-> qs])} :
            /\ (f.ok /\ QueuesOk(f) /\ ConceptsOk(f) /\ Raised(f) /\ CycleOk) = TRUE
            /\ con' = f.con /\ bel' = f.bel /\ spk' = f.spk /\ gsp' = f.gsp /\ cp' = f.cp /\ qs' = f.qs
            /\ Steps
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
