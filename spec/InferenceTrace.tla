--------------------------- MODULE InferenceTrace --------------------------
(* Inference in recorded whole-system runs (C09): which premises are used,   *)
(* and that exactly their conclusions enter memory.                          *)
EXTENDS Rec, Inference
CONSTANTS Close      \* how near in time a current belief has to be to be used as second premise
VARIABLES con,       \* live concepts: id -> [t, b, s]: term, belief, current belief
          taken,     \* selected events, for each cycle going on
          work       \* what is being concluded: [c: the concept, want: conclusions, got: those drawn], and the events done
tvars == <<l, stack, con, taken, work>>
NoNums == [x \in {} |-> 0]
None == [i \in {} |-> 0]
RECURSIVE Fold(_, _)
Fold(chs, f) ==
  IF chs = <<>> THEN f
  ELSE LET h == Head(chs) IN Fold(Tail(chs),
    CASE h.k = "con-" -> [j \in DOMAIN f \ {h.id} |-> f[j]]
      [] h.k = "con+" -> (h.id :> [t |-> h.t, b |-> NoEvent, s |-> NoEvent]) @@ f
      [] h.k = "slot" /\ h.s = "s" -> [f EXCEPT ![h.id].s = h.e]
      [] h.k = "slot" /\ h.s = "b" -> [f EXCEPT ![h.id].b = h.e]
      [] OTHER -> f)
Is3(e, x) == e.t = x.t /\ Near(e.f, x.f) /\ Near(e.c, x.c)
Idle == [c |-> -1, e |-> NoEvent, st |-> <<>>, want |-> {}, got |-> {}, done |-> {}]
\* all has been concluded, unless the concept of the second premise was forgotten meanwhile
Complete(f) == (work.c # -1 /\ work.c \notin DOMAIN f) \/ \A x \in work.want : \E e \in work.got : Is3(e, x)
\* the second premise that concept k supplies for event e
UsesSpike(e, k) == e.o # Eternal /\ k.s.ty # "-" /\ Abs(e.o - k.s.o) < Close
Second(e, k, b) ==
  /\ k.b.ty # "-"
  /\ IF UsesSpike(e, k)
     THEN LET p == Project(Tv(k.s), k.s.o, e.o) IN b.st = k.s.st /\ b.o = e.o /\ Near(b.f, p.f) /\ Near(b.c, p.c)
     ELSE b = k.b
Ok(f) ==
  CASE E.k = "Single" -> /\ Top.k = "Inference" /\ Complete(f) /\ E.e \in taken[Len(taken)]
    [] E.k = "Pair"   -> /\ Top.k = "Inference" /\ Complete(f) /\ E.a \in taken[Len(taken)] /\ E.a \in work.done
                         /\ E.c \in DOMAIN f /\ Second(E.a, f[E.c], E.b) /\ Disjoint(E.a.st, E.b.st)
    [] E.k = "AddEvent" /\ E.ph = "b" /\ Top.k = "Inference" ->
         /\ work.c = -1 \/ work.c \in DOMAIN f
         /\ \E x \in work.want : Is3(E.e, x)
         /\ E.e.ty = "b" /\ E.e.st = work.st /\ E.e.o = work.e.o /\ E.e.ct = Top.x /\ ~E.in /\ ~E.rev
         /\ E.e.dt = IF work.c = -1 THEN 0 ELSE work.e.dt
    [] E.k = "Inference" /\ E.ph = "e" -> Complete(f) /\ work.done = taken[Len(taken)]
    [] OTHER -> TRUE
WorkNext(f) ==
  CASE E.k = "Single" -> \E w \in {FromOne(E.e.t, Tv(E.e))} :
                           work' = [c |-> -1, e |-> E.e, st |-> E.e.st, want |-> w, got |-> {}, done |-> work.done \cup {E.e}]
    [] E.k = "Pair"   -> \E w \in {FromTwo(E.a.t, Tv(E.a), f[E.c].t, Tv(E.b))} :
                           work' = [c |-> E.c, e |-> E.a, st |-> Stamp(E.a.st, E.b.st), want |-> w, got |-> {}, done |-> work.done]
    [] E.k = "AddEvent" /\ E.ph = "b" /\ Top.k = "Inference" -> work' = [work EXCEPT !.got = @ \cup {E.e}]
    [] E.k = "Inference" -> work' = Idle
    [] OTHER -> UNCHANGED work
Items(s) == { s[k] : k \in 1..Len(s) }
Last(s, x) == [s EXCEPT ![Len(s)] = x]
TakenNext ==
  taken' = CASE E.k = "Cycle" /\ E.ph = "b" -> Append(taken, {})
             [] E.k = "Cycle" /\ E.ph = "e" -> SubSeq(taken, 1, Len(taken) - 1)
             [] E.k = "Pop" /\ E.ph = "e" /\ Top.l = -1 -> Last(taken, { i.e : i \in Items(E.beliefs) })
             [] OTHER -> taken
TraceInit == l = 1 /\ stack = <<>> /\ con = None /\ taken = <<>> /\ work = Idle
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1 /\ WellNested /\ stack' = StackAfter
  /\ IF E.k = "Reset" THEN con' = None /\ taken' = <<>> /\ work' = Idle
     ELSE \E f \in {Fold(E.ch, con)} : Ok(f) = TRUE /\ con' = f /\ WorkNext(f) /\ TakenNext
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
