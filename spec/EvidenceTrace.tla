--------------------------- MODULE EvidenceTrace ---------------------------
(* Every evidence list that appears in a recorded run comes about as         *)
(* Evidence says.                                                            *)
EXTENDS Rec
VARIABLES last,   \* highest evidence number given since the last reset
          con,    \* live concepts: id -> term
          bel,    \* id -> slot -> stored event
          lnk,    \* id -> operation -> table
          spk,    \* evidence lists of current beliefs seen since belief processing began
          sel,    \* selected belief events
          prem,   \* the evidence the rules may draw on now
          taint   \* a listed finding occurred: some lists repeat a number
tvars == <<l, stack, last, con, bel, lnk, spk, sel, prem, taint>>
Slots == [b |-> NoEvent, s |-> NoEvent, p |-> NoEvent, g |-> NoEvent]
Empty == [i \in {} |-> 0]
Joint(s, r) == IF Disjoint(s, r) THEN {Stamp(s, r)} ELSE {}
Entry(tab, t) == { tab[i] : i \in { i \in 1..Len(tab) : tab[i].t = t } }

\* ---- the same content with overlapping evidence: no merge, the more confident one is kept
Clash(old, e) == old.ty = "b" /\ old.t = e.t /\ ~Disjoint(old.st, e.st)
Wins(x, e, old) == LET a == Project(Tv(old), old.o, Max2(old.o, e.o))
                       b == IF x = "b" THEN Tv(Eternalized(e)) ELSE Project(Tv(e), e.o, Max2(old.o, e.o))
                   IN b.c >= a.c - Tol
Wins2(x, e, old) == LET a == Project(Tv(old), old.o, Max2(old.o, e.o))
                        b == IF x = "b" THEN Tv(Eternalized(e)) ELSE Project(Tv(e), e.o, Max2(old.o, e.o))
                    IN a.c >= b.c - Tol
Fed(x, e, now) == x = "b" \/ (e.o # Eternal /\ x = (IF e.o > now THEN "p" ELSE "s"))
\* a clash that changed nothing: the new belief was not more confident
Kept(f) == (Top.k = "NewBelief" /\ ~IsOp(Top.e.t, TImp)) =>
             \A i \in DOMAIN f.con : f.con[i] = Top.e.t => \A x \in {"b", "s", "p"} :
                Fed(x, Top.e, Top.now) /\ Clash(f.bel[i][x], Top.e) /\ ~SameE(f.bel[i][x], IF x = "b" THEN Eternalized(Top.e) ELSE Top.e)
                /\ <<i, x>> \notin f.done => Wins2(x, Top.e, f.bel[i][x])

\* ---- what the innermost section may do to slot x of concept i with event old -> n
SlotOk(fr, x, old, n) ==
  CASE n.ty = "-" -> FALSE
    [] x = "g" -> TRUE
    [] fr.k = "NewBelief" -> IF Clash(old, fr.e) THEN n.st = fr.e.st /\ Wins(x, fr.e, old)
                             ELSE \/ n.st = fr.e.st
                                  \/ n.st \in Joint(old.st, fr.e.st) /\ n.t = old.t /\ n.t = fr.e.t
    [] fr.k = "Activate"  -> n.st = fr.e.st
    [] fr.k = "Anticipate" -> \* a prediction from a belief and an implication with disjoint evidence, possibly revised
         LET preds == UNION { UNION { UNION { UNION { Joint(bel[i].s.st, lnk[j][o][k].st) : k \in 1..Len(lnk[j][o]) }
                                              : o \in DOMAIN lnk[j] } : j \in DOMAIN lnk } : i \in DOMAIN bel }
         IN n.st \in preds \/ \E p \in preds : n.st \in Joint(old.st, p) /\ n.t = old.t
    [] OTHER -> FALSE
\* ---- tables: evidence of an entry changes only by revision in Table_AddAndRevise
TabOk(fr, old, n) ==
  \A k \in 1..Len(n) :
    \/ \E m \in 1..Len(old) : old[m].t = n[k].t /\ old[m].st = n[k].st
    \/ fr.k = "Table" /\ n[k].t = fr.imp.t /\ (IF Entry(old, n[k].t) = {} THEN n[k].st = fr.imp.st
                                               ELSE \E o \in Entry(old, n[k].t) : n[k].st = Stamp(o.st, fr.imp.st))
Overlapping(fr, old) == fr.k = "Table" /\ \E o \in Entry(old, fr.imp.t) : ~Disjoint(o.st, fr.imp.st)

RECURSIVE Fold(_, _)
Fold(chs, st) ==
  IF chs = <<>> \/ ~st.ok THEN st
  ELSE LET h == Head(chs) IN Fold(Tail(chs),
    CASE h.k = "con-" -> [st EXCEPT !.con = [i \in DOMAIN @ \ {h.id} |-> @[i]], !.bel = [i \in DOMAIN @ \ {h.id} |-> @[i]],
                                    !.lnk = [i \in DOMAIN @ \ {h.id} |-> @[i]]]
      [] h.k = "con+" -> [st EXCEPT !.con = (h.id :> h.t) @@ @, !.bel = (h.id :> Slots) @@ @, !.lnk = (h.id :> Empty) @@ @]
      [] h.k = "slot" -> [st EXCEPT !.bel[h.id][h.s] = h.e,
                                    !.done = @ \cup {<<h.id, h.s>>},
                                    !.spk = IF h.s = "s" THEN @ \cup {h.e.st} ELSE @,
                                    !.ok = (st.bel[h.id][h.s].st = h.e.st /\ st.bel[h.id][h.s].t = h.e.t) \/ SlotOk(Top, h.s, st.bel[h.id][h.s], h.e)]
      [] h.k = "link" -> LET old == IF h.op \in DOMAIN st.lnk[h.id] THEN st.lnk[h.id][h.op] ELSE <<>> IN
                         [st EXCEPT !.lnk[h.id] = (h.op :> h.tab) @@ @,
                                    !.ok = TabOk(Top, old, h.tab),
                                    !.taint = IF ~@ /\ Overlapping(Top, old) THEN Finding("Table_AddAndRevise merges implications with overlapping evidence") ELSE @]
      [] OTHER -> st)

\* ---- events that enter the system
AddOk(a, f) ==
  a.e.ty = "b" =>
    CASE Top.k = "Input"     -> a.in /\ Len(a.e.st) = 1 /\ a.e.st[1] > last
      [] Top.k = "NewBelief" -> a.rev /\ \E i \in DOMAIN f.con : f.con[i] = Top.e.t /\ a.e.st = f.bel[i].b.st
      [] Top.k = "Reinforce" -> a.e.st \in Joint(Top.a.st, Top.b.st)
      [] Top.k = "Inference" -> a.e.st \in prem
      [] Top.k = "Beliefs"   -> a.e.st \in prem
      [] Top.k = "Execute"   -> \E j \in DOMAIN lnk : \E o \in DOMAIN lnk[j] : \E k \in 1..Len(lnk[j][o]) :
                                   a.e.st \in Joint(Top.spec.st, lnk[j][o][k].st)
      [] OTHER -> FALSE
BeginOk(f) == CASE E.k = "AddEvent" -> AddOk(E, f)
             [] E.k = "NewBelief" -> Top.k = "AddEvent" /\ Top.e.st = E.e.st
             [] E.k = "Sensorimotor" -> Top.k = "Beliefs" =>
                  \/ \E s \in sel : s.st = E.e.st /\ s.t = E.e.t
                  \/ \E x \in f.spk, s \in sel : E.e.st \in Joint(x, s.st)
             [] E.k = "Reinforce" ->
                  /\ E.b.st \in { s.st : s \in sel } \cup f.spk
                  /\ \/ E.a.st \in { s.st : s \in sel } \cup f.spk
                     \/ \E x \in f.spk, y \in f.spk : E.a.st \in Joint(x, y)
             [] OTHER -> TRUE
\* no list repeats a number (unless a listed finding brought it about)
Clean(e) == taint \/ e.ty = "g" \/ NoRepeats(e.st)
EventOk == CASE E.k \in {"AddEvent", "NewBelief"} /\ E.ph = "b" -> Clean(E.e) /\ Len(E.e.st) \in 1..StampSize
             [] E.k = "Pair" -> Disjoint(E.a.st, E.b.st) /\ Clean(E.a) /\ Clean(E.b)
             [] OTHER -> TRUE
Folded == Fold(E.ch, [ok |-> TRUE, con |-> con, bel |-> bel, lnk |-> lnk, spk |-> spk, done |-> IF stack = <<>> THEN {} ELSE Top.done, taint |-> taint])

TraceInit == l = 1 /\ stack = <<>> /\ last = 0 /\ con = Empty /\ bel = Empty /\ lnk = Empty /\ spk = {} /\ sel = {} /\ prem = {} /\ taint = FALSE
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1 /\ WellNested
  /\ IF E.k = "Reset" THEN last' = 0 /\ con' = Empty /\ bel' = Empty /\ lnk' = Empty /\ spk' = {} /\ sel' = {} /\ prem' = {} /\ taint' = FALSE /\ stack' = <<>>
     ELSE \E f \in {Folded} :
       /\ f.ok /\ (E.ph = "b" => BeginOk(f)) /\ EventOk /\ con' = f.con /\ bel' = f.bel /\ lnk' = f.lnk /\ taint' = f.taint
       /\ stack' = LET s0 == IF stack = <<>> THEN <<>> ELSE [stack EXCEPT ![Len(stack)].done = f.done]
                   IN CASE E.ph = "b" -> Append(s0, [done |-> {}] @@ E) [] E.ph = "e" -> Pop(s0) [] OTHER -> s0
       /\ (E.ph = "e" => Kept(f))
       /\ spk' = IF E.k = "Beliefs" /\ E.ph = "b" THEN { bel[i].s.st : i \in DOMAIN bel } ELSE f.spk
       /\ sel' = IF E.k = "Pop" /\ E.ph = "e" /\ Top.l = -1 THEN { E.beliefs[i].e : i \in 1..Len(E.beliefs) } ELSE sel
       /\ prem' = CASE E.k = "Single" -> {E.e.st}
                    [] E.k = "Pair" -> Joint(E.a.st, E.b.st)
                    [] E.k = "Sensorimotor" /\ E.ph = "b" -> {E.e.st}
                    [] E.k = "Inference" \/ (E.k = "Beliefs" /\ E.ph = "b") -> {}
                    [] OTHER -> prem
       /\ last' = IF E.k = "AddEvent" /\ E.ph = "b" /\ E.in THEN Max2(last, E.e.st[1]) ELSE last
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
