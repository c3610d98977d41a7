--------------------------- MODULE DecisionTrace ---------------------------
(* Decisions in recorded whole-system runs (C12) and what executing them     *)
(* does (C13).                                                               *)
EXTENDS Rec, Decision
CONSTANTS Property, Truth0f, Truth0c
VARIABLES con, spk, gsp, lnk,   \* live concepts: terms, belief spikes, goal spikes, tables
          gq,                   \* lengths of the queues of goals
          sel,                  \* goals selected for processing
          cand, open,           \* candidates considered, and the one being considered
          dec,                  \* possible decisions so far
          asked,                \* concepts asked for a decision in the open goal section
          exe                   \* executions going on: what they have done
tvars == <<l, stack, con, spk, gsp, lnk, gq, sel, cand, open, dec, asked, exe>>
C12 == Property = "C12"
C13 == Property = "C13"
NoNums == [x \in {} |-> 0]
None == [i \in {} |-> 0]
Without(f, i) == [j \in DOMAIN f \ {i} |-> f[j]]
RECURSIVE Fold(_, _)
Fold(chs, st) ==
  IF chs = <<>> THEN st
  ELSE LET h == Head(chs) IN Fold(Tail(chs),
    CASE h.k = "con-" -> [st EXCEPT !.con = Without(@, h.id), !.spk = Without(@, h.id), !.gsp = Without(@, h.id), !.lnk = Without(@, h.id)]
      [] h.k = "con+" -> [st EXCEPT !.con = (h.id :> h.t) @@ @, !.lnk = (h.id :> None) @@ @]
      [] h.k = "slot" /\ h.s = "s" -> [st EXCEPT !.spk = (h.id :> h.e) @@ @]
      [] h.k = "slot" /\ h.s = "g" -> [st EXCEPT !.gsp = (h.id :> h.e) @@ @]
      [] h.k = "link" -> [st EXCEPT !.lnk[h.id] = (h.op :> h.tab) @@ @]
      [] h.k = "q" /\ h.l >= 0 -> [st EXCEPT !.gq = (h.l :> h.items) @@ @]
      [] OTHER -> st)
\* ---- C12
Closed == [id |-> <<>>, acc |-> {}, done |-> {}]
\* the candidate being considered is finished: all outcomes must have been taken into account
Finished(f, now) ==
  IF open.id = <<>> THEN TRUE
  ELSE ~open.own \/ open.done = Outcomes(f.con, f.spk, f.gsp, f.lnk, open.op, open.ops, now)
Result == IF open.id = <<>> THEN cand
          ELSE Append(cand, [id |-> open.id, op |-> open.op, t |-> open.t, gen |-> open.gen, cases |-> open.cases, args |-> open.args, imp |-> open.imp,
                             desires |-> (IF open.own /\ Good(open.acc) THEN open.desires ELSE {}) \cup (IF ~open.own \/ Bad(open.acc) THEN {0} ELSE {})])
Considered(f) ==
  LET s == Frame("Suggest")
      t == Specific(f.con, E.e, s.c, E.imp, E.c)
      o == LastOperation(t[2])
  IN [id |-> <<E.x, E.imp, E.c>>, op |-> E.x, t |-> t, gen |-> HasVar(E.imp.t), cases |-> KnownCases(f.con, f.lnk, E.x, t), args |-> Arguments(o), imp |-> E.imp,
      own |-> OwnAction(o), ops |-> Ops(t[2]),
      desires |-> Desires(E.e, E.imp, f.spk[E.c], Frame("Cycle").x), acc |-> {NoEvent}, done |-> {}]
ConsiderOk(f) == LET s == Frame("Suggest")
                 IN /\ Top.k = "Suggest" /\ E.e = s.e
                    /\ E.imp \in Tables(f.lnk, s.c, E.x) /\ Lives(f.con, E.imp) /\ E.c \in Situations(f.con, f.spk)
                    /\ IsCandidate(f.con, E.e, s.c, E.imp, E.c)
OutcomeOk(f) == /\ open.id # <<>> /\ open.own /\ <<E.c, E.imp>> \notin open.done
                /\ E.e = f.gsp[E.c] /\ <<E.c, E.imp>> \in Outcomes(f.con, f.spk, f.gsp, f.lnk, open.op, open.ops, E.now)
\* the highest-ranked candidate that is not refuted
MaxDesire(r) == CHOOSE d \in r.desires : \A x \in r.desires : x <= d
MinDesire(r) == CHOOSE d \in r.desires : \A x \in r.desires : x >= d
Refutable(r) == r.gen /\ MaybeRefuted(r.cases)
BestOk(rs, b) ==
  IF b.run
  THEN \E k \in 1..Len(rs) :
         LET r == rs[k]
         IN /\ r.op = b.op /\ r.args = b.args /\ r.t = b.spec.t /\ r.imp = b.imp
            /\ \E d \in r.desires : Near(d, b.desire)
            /\ b.desire >= E.threshold - Tol
            /\ ~(r.gen /\ SurelyRefuted(r.cases))
            /\ \A j \in 1..Len(rs) : Refutable(rs[j]) \/ MinDesire(rs[j]) <= b.desire + Tol
            /\ IF r.gen /\ r.cases = {} THEN b.missing.t = r.t /\ b.missing.src = r.id[3] ELSE b.missing.t = NoTerm
  ELSE \A j \in 1..Len(rs) : Refutable(rs[j]) \/ MinDesire(rs[j]) <= E.threshold + Tol
BabbleOk(b) == b.run => E.chance > 0 /\ Babbles(E.ops, E.babblers, b)
SuggestedOk(f, rs) ==
  LET s == Frame("Suggest")
  IN /\ Top.k = "Suggest" /\ E.c = s.c
     /\ { rs[k].id : k \in 1..Len(rs) } = CandidateSet(f.con, f.spk, f.lnk, Len(E.ops), s.e, s.c)
     /\ BestOk(rs, E.best) /\ BabbleOk(E.babble)
\* asked for a decision: the concepts the goal is matched to
Instance(g, e, t) == /\ e.ty = "g" /\ e.f = g.f /\ e.c = g.c /\ e.st = g.st /\ e.o = g.o
                     /\ \/ e.t = g.t
                        \/ HasVar(g.t) /\ \E m \in {Match(g.t, t)} : m.ok /\ e.t = Subst(g.t, m.map)
SuggestOk(f) == /\ Inside("Goals") /\ sel # <<>>
                /\ \E k \in 1..Len(sel) : ~IsOp(sel[k].e.t, Seq2) /\ Related(sel[k].e.t, f.con[E.c]) /\ Instance(sel[k].e, E.e, f.con[E.c])
ToAsk(f) == IF sel = <<>> \/ IsOp(sel[1].e.t, Seq2) THEN {}
            ELSE LET g == sel[1].e.t
                 IN { c \in DOMAIN f.con : /\ Related(g, f.con[c])
                                           /\ \/ (~HasVar(g) \/ HasVarIn(g, QueryVars)) /\ Matches(f.con[c], g)
                                              \/ HasVar(g) /\ Matches(g, f.con[c]) }
Same(d, x) == d.run /\ d.op = x.op /\ d.args = x.args /\ d.desire = x.desire /\ d.imp = x.imp /\ d.spec = x.spec /\ d.missing = x.missing
\* ---- C13
Feedback(x) == IF x.args = NoTerm THEN x.name ELSE <<Inh, x.args, x.name>>
Pending(f) == \E q \in DOMAIN f.gq : f.gq[q] # <<>>
Event0(q) == { q[k].e : k \in 1..Len(q) }
ExeTop == exe[Len(exe)]
SetTop(r) == Append(SubSeq(exe, 1, Len(exe)-1), r)
\* the goals pending outside executions and selection change only by additions, and they are cleared all at once
QueuesOk(f) == \A k \in 1..Len(E.ch) : E.ch[k].k = "q" /\ E.ch[k].l >= 0 =>
  CASE Top.k \in {"AddEvent", "Pop", "Forgetting"} -> TRUE
    [] Top.k = "Goals" -> E.k = "Execute"
    [] OTHER -> FALSE

Step(f) ==
  CASE E.k = "Pop" /\ E.ph = "e" -> sel' = (IF Top.l >= 0 THEN E.goals ELSE sel) /\ UNCHANGED <<cand, open, dec, asked, exe>>
    [] E.k = "Goals" /\ E.ph = "b" -> dec' = {NoDecision} /\ asked' = {} /\ cand' = <<>> /\ open' = Closed /\ UNCHANGED <<sel, exe>>
    [] E.k = "Goals" /\ E.ph = "e" ->
         /\ \E d \in dec : ~d.run
         /\ C12 => asked = ToAsk(f)
         /\ dec' = {NoDecision} /\ asked' = {} /\ UNCHANGED <<sel, cand, open, exe>>
    [] E.k = "Suggest" /\ E.ph = "b" -> (C12 => SuggestOk(f) /\ E.c \notin asked) /\ asked' = asked \cup {E.c} /\ cand' = <<>> /\ open' = Closed /\ UNCHANGED <<sel, dec, exe>>
    [] E.k = "Consider" /\ C12 -> Finished(f, E.now) /\ ConsiderOk(f) /\ cand' = Result /\ open' = Considered(f) /\ UNCHANGED <<sel, dec, asked, exe>>
    [] E.k = "Outcome" /\ C12 -> OutcomeOk(f) /\ open' = [open EXCEPT !.done = @ \cup {<<E.c, E.imp>>}, !.acc = AddOutcome(@, E.e, E.imp, f.spk[E.imp.src], E.now)]
                          /\ UNCHANGED <<sel, cand, dec, asked, exe>>
    [] E.k = "Suggested" ->
         /\ C12 => Finished(f, E.now) /\ \E rs \in {Result} : SuggestedOk(f, rs)
         /\ cand' = <<>> /\ open' = Closed
         /\ dec' = UNION { UNION { Better(d, x) : d \in dec } : x \in Choice(E.babble, E.best) }
         /\ UNCHANGED <<sel, asked, exe>>
    [] E.k = "Execute" /\ E.ph = "b" ->
         /\ Top.k = "Goals"
         /\ \E d \in dec : Same(d, E)
         /\ C12 => asked = ToAsk(f)
         /\ C13 => ~Pending(f)
         /\ dec' = {NoDecision} /\ asked' = {} /\ sel' = <<>>
         /\ exe' = Append(exe, [calls |-> 0, inputs |-> 0, failed |-> FALSE, name |-> NoTerm, args |-> E.args, op |-> E.op])
         /\ UNCHANGED <<cand, open>>
    [] E.k = "Execute" /\ E.ph = "e" ->
         /\ C13 => ExeTop.calls = 1 /\ ExeTop.inputs = (IF ExeTop.failed THEN 0 ELSE 1)
         /\ exe' = SubSeq(exe, 1, Len(exe) - 1)
         /\ dec' = {NoDecision} /\ asked' = {} /\ sel' = <<>> /\ UNCHANGED <<cand, open>>
    [] E.k = "Call" ->
         /\ C13 => Top.k = "Execute" /\ ExeTop.calls = 0 /\ E.op = ExeTop.op /\ E.args = ExeTop.args
         /\ exe' = SetTop([ExeTop EXCEPT !.calls = @ + 1, !.failed = E.failed, !.name = E.name]) /\ UNCHANGED <<sel, cand, open, dec, asked>>
    [] E.k = "Input" /\ E.ph = "b" /\ Inside("Execute") ->
         /\ C13 => /\ Top.k = "Execute" /\ ExeTop.calls = 1 /\ ~ExeTop.failed
                   /\ ~E.goal /\ ~E.eternal /\ E.f = Truth0f /\ E.c = Truth0c /\ E.dt = 0
                   /\ E.t = Feedback(ExeTop)
         /\ exe' = SetTop([ExeTop EXCEPT !.inputs = @ + 1]) /\ UNCHANGED <<sel, cand, open, dec, asked>>
    [] OTHER -> UNCHANGED <<sel, cand, open, dec, asked, exe>>
Fresh == [con |-> None, spk |-> None, gsp |-> None, lnk |-> None, gq |-> None]
TraceInit == /\ l = 1 /\ stack = <<>> /\ con = None /\ spk = None /\ gsp = None /\ lnk = None /\ gq = None
             /\ sel = <<>> /\ cand = <<>> /\ open = Closed /\ dec = {NoDecision} /\ asked = {} /\ exe = <<>>
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1 /\ WellNested /\ stack' = StackAfter
  /\ IF E.k = "Reset" THEN /\ con' = None /\ spk' = None /\ gsp' = None /\ lnk' = None /\ gq' = None
                           /\ sel' = <<>> /\ cand' = <<>> /\ open' = Closed /\ dec' = {NoDecision} /\ asked' = {} /\ exe' = <<>>
     ELSE \E f \in {Fold(E.ch, [con |-> con, spk |-> spk, gsp |-> gsp, lnk |-> lnk, gq |-> gq])} :
            /\ con' = f.con /\ spk' = f.spk /\ gsp' = f.gsp /\ lnk' = f.lnk /\ gq' = f.gq
            /\ (C13 => QueuesOk(f))
            /\ Step(f)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
