---------------------------- MODULE BeliefsTrace ----------------------------
(* Is the recorded behaviour of the memory one that Beliefs allows?          *)
EXTENDS Beliefs, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
CONSTANTS MinConf
VARIABLES l, con, bel, stack
tvars == <<l, con, bel, stack>>
E == Trace[l]
Top == IF stack = <<>> THEN [k |-> "-", id |-> 0] ELSE stack[Len(stack)]
NewFrame == [k |-> E.k, id |-> E.id, now |-> E.now, done |-> {}, nested |-> {}, a |-> E]

\* with concepts c, a change of slot x of concept i to event n, made by frame fr
Legal(fr, c, i, x, old, n) ==
  CASE fr.k = "NewBelief" ->
         /\ c[i] = fr.a.e.t /\ ~IsTImp(c[i]) /\ fr.a.e.ty = "b"
         /\ Feeds(x, fr.a.e, fr.now) /\ <<i, x>> \notin fr.done
         /\ \E r \in AfterBelief(x, old, fr.a.e) : SameE(r, n)
    [] fr.k = "Activate" ->
         /\ i = fr.a.c /\ x = (IF fr.a.e.ty = "b" THEN "s" ELSE "g")
         /\ Newer(old, fr.a.e) /\ SameE(n, fr.a.e)
    [] fr.k = "Goals"      -> x = "g"
    [] fr.k = "Anticipate" -> x = "p" \/ (x = "s" /\ fr.a.decl)
    [] OTHER -> FALSE

RECURSIVE Fold(_, _, _, _)
\* apply the logged changes one after another: [ok, con, bel, done]
Fold(chs, c, b, done) ==
  IF chs = <<>> THEN [ok |-> TRUE, con |-> c, bel |-> b, done |-> done]
  ELSE LET h == Head(chs) IN
    CASE h.k = "con-" -> Fold(Tail(chs), [i \in DOMAIN c \ {h.id} |-> c[i]], [i \in DOMAIN b \ {h.id} |-> b[i]], done)
      [] h.k = "con+" -> Fold(Tail(chs), [i \in DOMAIN c \cup {h.id} |-> IF i = h.id THEN h.t ELSE c[i]],
                                         [i \in DOMAIN b \cup {h.id} |-> IF i = h.id THEN NoBeliefs ELSE b[i]], done)
      [] h.k = "slot" -> IF SameE(b[h.id][h.s], h.e)   \* only bookkeeping fields changed
                         THEN Fold(Tail(chs), c, [b EXCEPT ![h.id][h.s] = h.e], done)
                         ELSE IF stack # <<>> /\ Legal([Top EXCEPT !.done = done], c, h.id, h.s, b[h.id][h.s], h.e)
                              THEN Fold(Tail(chs), c, [b EXCEPT ![h.id][h.s] = h.e], done \cup {<<h.id, h.s>>})
                              ELSE [ok |-> FALSE]
      [] OTHER -> Fold(Tail(chs), c, b, done)

\* frame fr ends with concepts c and beliefs b: everything it had to update is updated
Complete(fr, c, b) ==
  CASE fr.k = "NewBelief" ->
         \/ IsTImp(fr.a.e.t)
         \/ \A i \in DOMAIN c : c[i] = fr.a.e.t =>
              \A x \in {"b", "s", "p"} : Feeds(x, fr.a.e, fr.now) =>
                  <<i, x>> \in fr.done \/ \E r \in AfterBelief(x, b[i][x], fr.a.e) : SameE(r, b[i][x])
    [] fr.k = "Activate" ->
         fr.a.c \in DOMAIN b => ~Newer(b[fr.a.c][IF fr.a.e.ty = "b" THEN "s" ELSE "g"], fr.a.e)
    [] fr.k = "AddEvent" ->
         (fr.a.e.ty = "b" /\ fr.a.e.c > MinConf + 5 /\ fr.a.pr > 5) => Cardinality(fr.nested) = 1
    [] fr.k = "Input" -> Cardinality(fr.nested) = 1
    [] OTHER -> TRUE
\* a concept of the event exists when it was processed
HasConcept(fr, c) == fr.k = "NewBelief" /\ ~IsTImp(fr.a.e.t) => \E i \in DOMAIN c : c[i] = fr.a.e.t

Nest(fr) == IF \/ fr.k = "AddEvent" /\ E.k = "NewBelief" /\ SameE(E.e, fr.a.e)
               \/ fr.k = "Input" /\ E.k = "AddEvent" /\ E.in /\ E.e.t = fr.a.t /\ Near(E.e.c, fr.a.c) /\ Near(E.e.f, fr.a.f)
                  /\ E.e.ty = (IF fr.a.goal THEN "g" ELSE "b") /\ E.e.o = (IF fr.a.eternal THEN Eternal ELSE fr.now)
            THEN [fr EXCEPT !.nested = @ \cup {E.id}] ELSE fr

TraceInit == l = 1 /\ con = [i \in {} |-> NoTerm] /\ bel = [i \in {} |-> NoBeliefs] /\ stack = <<>>
             /\ slots = NoBeliefs /\ clock = 0 /\ inputs = 0 /\ seen = {}
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1 /\ UNCHANGED vars
  /\ IF E.k = "Reset" THEN con' = [i \in {} |-> NoTerm] /\ bel' = [i \in {} |-> NoBeliefs] /\ stack' = <<>>
     ELSE
     \E r \in {Fold(E.ch, con, bel, IF stack = <<>> THEN {} ELSE Top.done)} :
     LET base == IF stack = <<>> THEN <<>> ELSE [stack EXCEPT ![Len(stack)].done = r.done]
     IN /\ r.ok
        /\ con' = r.con /\ bel' = r.bel
        /\ IF E.ph = "e"
           THEN /\ Top.id = E.id
                /\ Complete(base[Len(base)], r.con, r.bel) /\ HasConcept(base[Len(base)], r.con)
                /\ stack' = SubSeq(base, 1, Len(base) - 1)
           ELSE IF E.ph = "b"
           THEN stack' = Append(IF base = <<>> THEN <<>> ELSE [base EXCEPT ![Len(base)] = Nest(@)], NewFrame)
           ELSE stack' = base
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, vars>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
