------------------------- MODULE AnticipationTrace -------------------------
(* Predictions in recorded whole-system runs (C19).                          *)
EXTENDS Rec, Anticipation
CONSTANTS Capacity, Recent
K == INSTANCE Links WITH Cap <- 0, Cells <- {}, Names <- {}, Freqs <- {}, Confs <- {}, MaxId <- 0, mem <- 0, tab <- 0, ids <- 0, used <- 0
VARIABLES con, spk, prd, lnk,   \* live concepts: terms, belief spikes, predicted beliefs, tables
          bels,                 \* belief events selected for processing
          calls,                \* anticipations made while processing them
          must, given,          \* <<concept, implication>> that have to predict and that have predicted, in the open anticipation
          open,                 \* the prediction being made
          exe                   \* executions going on
tvars == <<l, stack, con, spk, prd, lnk, bels, calls, must, given, open, exe>>
NoNums == [x \in {} |-> 0]
None == [i \in {} |-> 0]
Without(f, i) == [j \in DOMAIN f \ {i} |-> f[j]]
Parent2 == IF Len(stack) > 1 THEN stack[Len(stack)-1] ELSE NoFrame
Closed == [on |-> FALSE, neg |-> TRUE]
ConceptOf(c, t) == { i \in DOMAIN c : c[i] = t }
Old(f, i) == IF i \in DOMAIN f THEN f[i] ELSE NoEvent
TabIn(k, id, op) == IF op \in DOMAIN k[id] THEN k[id][op] ELSE <<>>

\* ---- changes of beliefs and tables
\* the possible results of the open prediction, for its consequence's concept
Targets == UNION { Effect(open.con, open.imp, open.e, p) : p \in { q \in open.results : MayCount(q, open.decl) } }
SlotOk(st, h) ==
  CASE Top.k = "Anticipate" /\ h.s = (IF Top.decl THEN "s" ELSE "p") ->
         LET old == Old(IF h.s = "s" THEN st.spk ELSE st.prd, h.id)
         IN \/ SameE(old, h.e)
            \/ open.on /\ \E p \in Targets : st.con[h.id] = p.t /\ \E r \in Updated(old, p, open.e, open.imp, open.decl) : SameE(r, h.e)
    [] Top.k = "Anticipate" -> FALSE
    [] h.s = "p" -> Top.k = "NewBelief"
    [] OTHER -> TRUE
Removals(old, new) ==
  LET RECURSIVE Go(_, _)
      Go(i, j) == IF j > Len(new) THEN { i..Len(old) } ELSE IF i > Len(old) THEN {}
                  ELSE IF K!SameImp(old[i], new[j]) THEN Go(i+1, j+1) ELSE { {i} \cup s : s \in Go(i+1, j) }
  IN Go(1, 1)
Against(fr) == Failures(fr.e, fr.imp)
LinkOk(st, h) ==
  LET old == TabIn(st.lnk, h.id, h.op) IN
  CASE Top.k = "Table" -> h.id = Top.owner /\ h.op = Top.op /\ (Parent2.k = "NegativeConfirmation" => K!Added(old, Top.imp, h.tab, Capacity))
    [] Top.k = "NegativeConfirmation" /\ Len(old) = Len(h.tab) -> \A k \in 1..Len(old) : K!SameImp(old[k], [h.tab[k] EXCEPT !.src = old[k].src])
    [] OTHER -> \E gone \in Removals(old, h.tab) : \A k \in gone : ~Valid(st.con, old[k])
RECURSIVE Fold(_, _)
Fold(chs, st) ==
  IF chs = <<>> \/ ~st.ok THEN st
  ELSE LET h == Head(chs) IN Fold(Tail(chs),
    CASE h.k = "con-" -> [st EXCEPT !.con = Without(@, h.id), !.spk = Without(@, h.id), !.prd = Without(@, h.id), !.lnk = Without(@, h.id)]
      [] h.k = "con+" -> [st EXCEPT !.con = (h.id :> h.t) @@ @, !.lnk = (h.id :> None) @@ @]
      [] h.k = "slot" /\ h.s = "s" -> [st EXCEPT !.spk = (h.id :> h.e) @@ @, !.ok = SlotOk(st, h)]
      [] h.k = "slot" /\ h.s = "p" -> [st EXCEPT !.prd = (h.id :> h.e) @@ @, !.ok = SlotOk(st, h)]
      [] h.k = "link" -> [st EXCEPT !.lnk[h.id] = (h.op :> h.tab) @@ @, !.ok = LinkOk(st, h)]
      [] OTHER -> st)

\* ---- predictions
PredictOk(f) == /\ Top.k = "Anticipate"
                /\ <<E.c, E.imp>> \notin given
                /\ E.imp \in TableOf(f.lnk, E.c, IF Top.decl THEN -1 ELSE Top.op) /\ Valid(f.con, E.imp)
                /\ E.imp.src \in DOMAIN f.spk /\ E.e = f.spk[E.imp.src]
                /\ Suits(E.imp, E.e, Top.op, Top.t)
Opened(f) == [on |-> TRUE, c |-> E.c, imp |-> E.imp, e |-> E.e, decl |-> Top.decl, op |-> Top.op, con |-> f.con,
              results |-> Predictions(E.e, E.imp, Top.op, Top.now), neg |-> FALSE]
\* the open prediction is finished: evidence against the implication was counted, the consequence's belief is updated
Finished(f) ==
  open.on =>
    /\ (~open.decl /\ \A p \in open.results : MustCount(p, FALSE)) => open.neg
    /\ \E p \in open.results :
         \/ ~MustCount(p, open.decl)
         \/ \A q \in Effect(open.con, open.imp, open.e, p) :
              \E i \in ConceptOf(f.con, q.t) :
                LET now == Old(IF open.decl THEN f.spk ELSE f.prd, i)
                    before == Old(open.before, i)
                IN \E r \in Updated(before, q, open.e, open.imp, open.decl) : SameE(r, now)
\* beliefs before the open prediction, of concepts that live
Before(f) == [i \in DOMAIN f.con |-> Old(IF Top.decl THEN f.spk ELSE f.prd, i)]
NegOk(f) ==
  CASE Top.k = "Anticipate" ->
         /\ open.on /\ ~open.neg /\ ~open.decl
         /\ E.imp = open.imp /\ E.c = open.c /\ E.op = open.op /\ E.e = open.e
         /\ \E p \in open.results : MayCount(p, FALSE)
    [] Top.k = "Execute" ->
         /\ exe[Len(exe)].inputs = 1 /\ exe[Len(exe)].negs = 0
         /\ E.imp = Top.missing /\ E.imp.t # NoTerm /\ E.op = Top.op
         /\ f.con[E.c] = E.imp.t[3] /\ Valid(f.con, E.imp)
         /\ E.e = f.spk[E.imp.src]
    [] OTHER -> FALSE
TableStart == Top.k = "NegativeConfirmation" =>
  /\ E.owner = Top.c /\ E.op = Top.op
  /\ \E i \in Against(Top) : i.t = E.imp.t /\ i.f = E.imp.f /\ Near(i.c, E.imp.c) /\ i.st = E.imp.st /\ i.dt = E.imp.dt
\* what has to be anticipated when the selected beliefs are processed
Processed(b, now) == /\ b.p >= One /\ b.e.o # Eternal /\ now - b.e.o < Recent
                     /\ ~(IsOp(b.e.t, Prop) /\ ~(IsOp(b.e.t[2], Prod)))
Wanted(now) == { <<OpAtom(bels[k].e.t), OpTerm(bels[k].e.t)>> : k \in { j \in 1..Len(bels) : Processed(bels[j], now) } }
Known(w) == { x \in w : x[1] # "-" }
Last(s) == s[Len(s)]
SetLast(s, r) == Append(SubSeq(s, 1, Len(s)-1), r)

Rest == UNCHANGED <<bels, calls, must, given, open, exe>>
Step(f) ==
  CASE E.k = "Pop" /\ E.ph = "e" -> bels' = (IF Top.l = -1 THEN E.beliefs ELSE bels) /\ UNCHANGED <<calls, must, given, open, exe>>
    [] E.k = "Beliefs" /\ E.ph = "b" -> calls' = <<>> /\ UNCHANGED <<bels, must, given, open, exe>>
    [] E.k = "Beliefs" /\ E.ph = "e" ->
         /\ Len(calls) = Cardinality({ j \in 1..Len(bels) : Processed(bels[j], Top.x) })
         /\ \A w \in Wanted(Top.x) : \E k \in 1..Len(calls) : calls[k] = w \/ (calls[k][1] = "-" /\ calls[k][2] = w[2])
         /\ Rest
    [] E.k = "Cycle" /\ E.ph = "b" -> calls' = <<>> /\ open' = Closed /\ UNCHANGED <<bels, must, given, exe>>
    [] E.k = "Cycle" /\ E.ph = "e" -> Rest
    [] E.k = "Anticipate" /\ E.ph = "b" ->
         /\ IF E.decl THEN Top.k = "Cycle" /\ E.op = 0 /\ UNCHANGED calls
            ELSE /\ Top.k = "Beliefs"
                 /\ \E w \in Wanted(Top.x) : w[2] = E.t /\ (w[1] = E.opname \/ E.opname = "-")
                 /\ calls' = Append(calls, <<E.opname, E.t>>)
         /\ must' = Predictors(f.con, f.spk, f.lnk, IF E.decl THEN -1 ELSE E.op, E.t)
         /\ given' = {} /\ open' = Closed /\ UNCHANGED <<bels, exe>>
    [] E.k = "Predict" -> /\ Finished(f) /\ PredictOk(f)
                          /\ given' = given \cup {<<E.c, E.imp>>} /\ open' = [Opened(f) EXCEPT !.neg = FALSE] @@ [before |-> Before(f)]
                          /\ UNCHANGED <<bels, calls, must, exe>>
    [] E.k = "Anticipate" /\ E.ph = "e" ->
         /\ Finished(f)
         /\ \A x \in must : x \in given \/ x[1] \notin DOMAIN f.con \/ ~Valid(f.con, x[2])
         /\ must' = {} /\ given' = {} /\ open' = Closed /\ UNCHANGED <<bels, calls, exe>>
    [] E.k = "NegativeConfirmation" /\ E.ph = "b" ->
         /\ NegOk(f)
         /\ IF Top.k = "Anticipate" THEN open' = [open EXCEPT !.neg = TRUE] /\ UNCHANGED exe
            ELSE exe' = SetLast(exe, [Last(exe) EXCEPT !.negs = @ + 1]) /\ UNCHANGED open
         /\ UNCHANGED <<bels, calls, must, given>>
    [] E.k = "NegativeConfirmation" /\ E.ph = "e" -> Rest
    [] E.k = "Table" /\ E.ph = "b" -> TableStart /\ Rest
    [] E.k = "Table" /\ E.ph = "e" ->
         /\ (Parent2.k = "NegativeConfirmation" => K!Added(TabIn(lnk, Top.owner, Top.op), Top.imp, TabIn(f.lnk, Top.owner, Top.op), Capacity))
         /\ Rest
    [] E.k = "Execute" /\ E.ph = "b" -> exe' = Append(exe, [inputs |-> 0, negs |-> 0]) /\ UNCHANGED <<bels, calls, must, given, open>>
    [] E.k = "Execute" /\ E.ph = "e" ->
         /\ (Top.missing.t # NoTerm /\ Last(exe).inputs = 1 /\ Valid(f.con, Top.missing)) => Last(exe).negs = 1
         /\ exe' = SubSeq(exe, 1, Len(exe)-1) /\ bels' = <<>> /\ UNCHANGED <<calls, must, given, open>>
    [] E.k = "Input" /\ E.ph = "b" /\ Top.k = "Execute" -> exe' = SetLast(exe, [Last(exe) EXCEPT !.inputs = @ + 1]) /\ UNCHANGED <<bels, calls, must, given, open>>
    [] OTHER -> Rest
TraceInit == /\ l = 1 /\ stack = <<>> /\ con = None /\ spk = None /\ prd = None /\ lnk = None
             /\ bels = <<>> /\ calls = <<>> /\ must = {} /\ given = {} /\ open = Closed /\ exe = <<>>
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1 /\ WellNested /\ stack' = StackAfter
  /\ IF E.k = "Reset" THEN /\ con' = None /\ spk' = None /\ prd' = None /\ lnk' = None
                           /\ bels' = <<>> /\ calls' = <<>> /\ must' = {} /\ given' = {} /\ open' = Closed /\ exe' = <<>>
     ELSE \E f \in {Fold(E.ch, [ok |-> TRUE, con |-> con, spk |-> spk, prd |-> prd, lnk |-> lnk])} :
            /\ f.ok /\ con' = f.con /\ spk' = f.spk /\ prd' = f.prd /\ lnk' = f.lnk
            /\ Step(f)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
