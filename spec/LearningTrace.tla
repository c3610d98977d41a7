---------------------------- MODULE LearningTrace --------------------------
(* Temporal learning in recorded whole-system runs (C11, C24).               *)
EXTENDS Rec, Learning
CONSTANTS Recent
VARIABLES con, spk, sel, ring,  \* live concepts: terms, latest events, time of last activity; recently active ones
          taken,                \* the events selected for processing, for each cycle going on
          st,                   \* the state of the processing of an event, for each such section going on
          act                   \* for each event that is activating concepts: those it has to, those it did
tvars == <<l, stack, con, spk, sel, ring, taken, st, act>>
NoNums == [x \in {} |-> 0]
None == [i \in {} |-> 0]
Without(f, i) == [j \in DOMAIN f \ {i} |-> f[j]]
Items(s) == { s[k] : k \in 1..Len(s) }
RECURSIVE Fold(_, _)
Fold(chs, s) ==
  IF chs = <<>> THEN s
  ELSE LET h == Head(chs) IN Fold(Tail(chs),
    CASE h.k = "con-" -> [s EXCEPT !.con = Without(@, h.id), !.spk = Without(@, h.id), !.sel = Without(@, h.id)]
      [] h.k = "con+" -> [s EXCEPT !.con = (h.id :> h.t) @@ @, !.spk = (h.id :> NoEvent) @@ @, !.sel = (h.id :> 0) @@ @]
      [] h.k = "slot" /\ h.s = "s" -> [s EXCEPT !.spk[h.id] = h.e]
      [] h.k = "sel" -> [s EXCEPT !.sel[h.id] = h.l]
      [] h.k = "ring" -> [s EXCEPT !.ring = Items(h.ids)]
      [] OTHER -> s)
Now == Top.x
Measured(t) == IsOp(t, Prop) /\ ~IsOp(t[2], Prod)
Processable(e, now) == e.o # Eternal /\ now - e.o < Recent /\ ~Measured(e.t)

\* ---- what the event p that is being processed has to lead to, in state f
NewWork(p, f, now) ==
  [p |-> p,
   conds |-> { c \in f.ring \cap DOMAIN f.con : RelatesTo(f.spk[c], f.sel[c], p, now) /\ Must(Joined(f.spk[c], p)) },
   acts |-> { w \in (f.ring \cap DOMAIN f.con) \X { o \in f.ring \cap DOMAIN f.con : OpAtom(f.con[o]) # "-" /\ Earlier(f.spk[o], p, now) } :
                CausesByOperation(f.spk[w[1]], f.sel[w[1]], f.con[w[1]], f.spk[w[2]], f.sel[w[2]], f.con[w[2]], p, now)
                /\ Must(Joined(f.spk[w[1]], f.spk[w[2]])) },
   spk |-> f.spk, sel |-> f.sel,
   pairs |-> {}, seqs |-> {},    \* done
   moved |-> {},                 \* active again since: what has not been reached among the recently active ones is not reached any more
   begun |-> TRUE, todo |-> <<>>, sure |-> TRUE]
Idle == [p |-> NoEvent, conds |-> {}, acts |-> {}, spk |-> None, sel |-> None, pairs |-> {}, seqs |-> {}, moved |-> {}, begun |-> FALSE, todo |-> <<>>, sure |-> TRUE]
W == IF st = <<>> THEN Idle ELSE st[Len(st)]
Undisturbed(c, f) == c \notin W.moved /\ c \in f.ring /\ c \in DOMAIN f.con /\ f.spk[c] = W.spk[c] /\ f.sel[c] = W.sel[c]
Did(pair) == \E d \in W.pairs : SameE(d[1], pair[1]) /\ SameE(d[2], pair[2])
Complete(f) ==
  /\ \A c \in W.conds : Undisturbed(c, f) =>
       /\ \A q \in Pairs(W.spk[c], W.p) : Did(q)
       /\ MakesSequence(W.spk[c], W.p) => \E e \in W.seqs : SameE(e, Joined(W.spk[c], W.p))
  /\ \A w \in W.acts : Undisturbed(w[1], f) /\ Undisturbed(w[2], f) => Did(<<Act2(W.spk[w[1]], W.spk[w[2]]), W.p>>)
\* ---- only what is licensed
Licensed(a, b, f) ==
  \/ \E c \in ring \cap DOMAIN con :
       RelatesTo(spk[c], sel[c], W.p, Now) /\ Might(Joined(spk[c], W.p))
       /\ \/ a = spk[c] /\ b = W.p
          \/ a = W.p /\ b = spk[c] /\ a.o = b.o
  \/ \E c \in ring \cap DOMAIN con, o \in { x \in ring \cap DOMAIN con : OpAtom(con[x]) # "-" /\ Earlier(spk[x], W.p, Now) } :
       /\ CausesByOperation(spk[c], sel[c], con[c], spk[o], sel[o], con[o], W.p, Now)
       /\ Might(Joined(spk[c], spk[o])) /\ b = W.p /\ SameE(a, Act2(spk[c], spk[o]))
  \/ \* the concept of the cause was forgotten while <cause =/> p> was learned
     b.ty = "-" /\ a = W.p
SequenceOk ==
  \* (the concept of its first part can have been forgotten meanwhile)
  \/ \E d \in W.pairs : d[2] = W.p /\ OpAtom(d[1].t) = "-" /\ SameE(E.e, Joined(d[1], W.p)) /\ MakesSequence(d[1], W.p)
  \/ \E c \in ring \cap DOMAIN con :
       /\ RelatesTo(spk[c], sel[c], W.p, Now) /\ Might(Joined(spk[c], W.p))
       /\ SameE(E.e, Joined(spk[c], W.p)) /\ MakesSequence(spk[c], W.p)
Terms2 == Range(con)
\* the implication being added
Adds(i) == LET e == E.e IN
  /\ i # <<>> /\ e.t = Head(i) /\ e.ty = "b"
  /\ LET g == Induced(Top.a, Top.b)
     IN Near(e.f, g.f) /\ Near(e.c, g.c) /\ e.st = g.st /\ e.dt = g.dt
  /\ e.o = Frame("Beliefs").x
\* ---- events activate the concepts they match
Activates(e, t) == IF HasVar(e.t) THEN Matches(e.t, t) \/ (HasVarIn(e.t, QueryVars) /\ Matches(t, e.t)) ELSE Matches(t, e.t)
ToActivate(e) == IF e.ty # "b" \/ HasVar(e.t) THEN {} ELSE { c \in DOMAIN con : Related(e.t, con[c]) /\ Matches(con[c], e.t) }
ActivateOk(f) ==
  /\ f.sel = sel \/ (\A c \in DOMAIN f.sel : f.sel[c] = (IF c \in DOMAIN sel THEN sel[c] ELSE 0) \/ (Top.k = "Activate" /\ Top.c = c /\ f.sel[c] = Frame("Cycle").x))
  /\ E.k = "Activate" /\ E.ph = "b" =>
       /\ Top.k = "Sensorimotor" /\ E.c \in DOMAIN f.con /\ E.c \notin act[Len(act)].did
       /\ Activates(Top.e, f.con[E.c])
       /\ [E.e EXCEPT !.t = Top.e.t, !.ct = 0] = [Top.e EXCEPT !.ct = 0] /\ E.e.ct = Top.x
       /\ E.e.t = Top.e.t \/ (HasVar(Top.e.t) /\ E.e.t = f.con[E.c])
  /\ E.k = "Activate" /\ E.ph = "e" /\ Top.e.ty = "b" =>
       /\ f.sel[Top.c] = Frame("Cycle").x
       /\ f.spk[Top.c] = IF spk[Top.c].ty = "b" /\ Top.e.o <= spk[Top.c].o THEN spk[Top.c] ELSE Top.e
  /\ Top.k \notin {"NewBelief", "Cycle"} /\ ~(E.k = "Activate" /\ E.ph = "e") => \A c \in DOMAIN f.spk : f.spk[c] = IF c \in DOMAIN spk THEN spk[c] ELSE NoEvent
  /\ E.k = "Sensorimotor" /\ E.ph = "e" =>
       /\ act[Len(act)].has \cap DOMAIN f.con \subseteq act[Len(act)].did
       /\ Top.e.ty = "b" /\ ~HasVar(Top.e.t) => \A c \in DOMAIN f.con : f.con[c] = Top.e.t => c \in act[Len(act)].did
ActNext == act' = CASE E.k = "Sensorimotor" /\ E.ph = "b" -> Append(act, [has |-> ToActivate(E.e), did |-> {}])
                    [] E.k = "Sensorimotor" /\ E.ph = "e" -> SubSeq(act, 1, Len(act) - 1)
                    [] E.k = "Activate" /\ E.ph = "b" -> [act EXCEPT ![Len(act)].did = @ \cup {E.c}]
                    [] OTHER -> act
LearnOk(f) ==
  CASE E.k = "Sensorimotor" /\ E.ph = "b" /\ Top.k = "Beliefs" ->
         IF W.begun THEN SequenceOk ELSE E.e \in taken[Len(taken)] /\ Processable(E.e, Now)
    [] E.k = "Reinforce" /\ E.ph = "b" -> Top.k = "Beliefs" /\ W.begun /\ Licensed(E.a, E.b, f)
    [] E.k = "AddEvent" /\ E.ph = "b" /\ Top.k = "Reinforce" -> Adds(W.todo)
    [] E.k = "AddEvent" /\ E.ph = "b" /\ Top.k = "Beliefs" -> ~IsOp(E.e.t, TImp)
    [] E.k = "Reinforce" /\ E.ph = "e" -> W.todo = <<>> \/ ~W.sure
    [] E.k = "Beliefs" /\ E.ph = "e" -> Complete(f) /\ (W.begun \/ \A e \in taken[Len(taken)] : ~Processable(e, Now))
    [] E.k = "Table" /\ Top.k = "NewBelief" ->
         LET v == IF Top.e.o = Eternal THEN Tv(Top.e) ELSE Eternalize(Tv(Top.e))
         IN E.imp.t = Top.e.t /\ Near(E.imp.f, v.f) /\ Near(E.imp.c, v.c) /\ E.imp.st = Top.e.st /\ E.imp.dt = Top.e.dt
    [] OTHER -> TRUE
Last(s, x) == [s EXCEPT ![Len(s)] = x]
StNext(f) ==
  CASE E.k = "Beliefs" /\ E.ph = "b" -> st' = Append(st, Idle)
    [] E.k = "Beliefs" /\ E.ph = "e" -> st' = SubSeq(st, 1, Len(st) - 1)
    [] E.k = "Sensorimotor" /\ E.ph = "b" /\ Top.k = "Beliefs" /\ W.begun -> st' = Last(st, [W EXCEPT !.seqs = @ \cup {E.e}])
    [] E.k = "Sensorimotor" /\ E.ph = "e" /\ Len(stack) > 1 /\ stack[Len(stack)-1].k = "Beliefs" /\ ~W.begun -> 
         st' = Last(st, NewWork(Top.e, f, stack[Len(stack)-1].x))
    [] E.k = "Reinforce" /\ E.ph = "b" ->
         \E i \in {Learned(E.a, E.b, Range(f.con))} : \E g \in {IF E.b.ty = "b" THEN Induced(E.a, E.b) ELSE NoEvent} :
           st' = Last(st, [W EXCEPT !.pairs = @ \cup {<<E.a, E.b>>}, !.todo = IF Might(g) THEN i ELSE <<>>, !.sure = Must(g)])
    [] E.k = "AddEvent" /\ E.ph = "b" /\ Top.k = "Reinforce" -> st' = Last(st, [W EXCEPT !.todo = Tail(@)])
    [] E.k = "Activate" /\ E.ph = "b" /\ W.begun -> st' = Last(st, [W EXCEPT !.moved = @ \cup {E.c}])
    [] OTHER -> UNCHANGED st
TakenNext ==
  taken' = CASE E.k = "Cycle" /\ E.ph = "b" -> Append(taken, {})
             [] E.k = "Cycle" /\ E.ph = "e" -> SubSeq(taken, 1, Len(taken) - 1)
             [] E.k = "Pop" /\ E.ph = "e" /\ Top.l = -1 -> Last(taken, { i.e : i \in Items(E.beliefs) })
             [] OTHER -> taken
TraceInit == l = 1 /\ stack = <<>> /\ con = None /\ spk = None /\ sel = None /\ ring = {} /\ taken = <<>> /\ st = <<>> /\ act = <<>>
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1 /\ WellNested /\ stack' = StackAfter
  /\ IF E.k = "Reset" THEN E.ch = <<>> /\ con' = None /\ spk' = None /\ sel' = None /\ ring' = {} /\ taken' = <<>> /\ st' = <<>> /\ act' = <<>>
     ELSE \E f \in {Fold(E.ch, [con |-> con, spk |-> spk, sel |-> sel, ring |-> ring])} :
            /\ (ActivateOk(f) /\ LearnOk(f)) = TRUE
            /\ con' = f.con /\ spk' = f.spk /\ sel' = f.sel /\ ring' = f.ring
            /\ StNext(f) /\ TakenNext /\ ActNext
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
