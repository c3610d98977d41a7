--------------------------- MODULE ConceptsTrace ---------------------------
(* Do recorded runs change concept memory and its indexes as Concepts says?  *)
EXTENDS Rec
CONSTANTS Cap, CellTotal
VARIABLES con,   \* id -> [t, cell, rank, n, l]
          next,  \* identities below have been given
          view   \* the indexes as last seen
tvars == <<l, stack, con, next, view>>
C == INSTANCE Concepts WITH Ranks <- {One}, TermSet <- {}, nextId <- next, lookup <- 0, index <- 0
Usefulness(c, now) == LET rec == Max2(0, now - c.l) IN Div(c.n, c.n + rec + 1)
NoView == [find |-> <<>>, idx |-> <<>>, free |-> CellTotal]

\* usefulness is known up to the fixed point: all concepts that may be the lowest
MayGo(c) == LET low == CHOOSE r \in { c[i].rank : i \in DOMAIN c } : \A j \in DOMAIN c : r <= c[j].rank
            IN { i \in DOMAIN c : c[i].rank <= low + 2 }

RECURSIVE Fold(_, _)
Fold(chs, st) ==
  IF chs = <<>> \/ ~st.ok THEN st
  ELSE LET h == Head(chs) IN Fold(Tail(chs),
    CASE h.k = "con-" -> [st EXCEPT !.con = C!Without(@, {h.id}), !.gone = @ \cup {h.id}, !.found = @ \cup {<<h.id, h.f>>}]
      [] h.k = "con+" -> [st EXCEPT !.con = C!With(@, h.id, [t |-> h.t, cell |-> h.cell, rank |-> One, n |-> 0, l |-> 0, at |-> Indexed(h.t)]),
                                    !.new = @ \cup {h.id}, !.ok = h.empty]
      [] h.k = "use"  -> [st EXCEPT !.con[h.id] = [@ EXCEPT !.rank = h.u, !.n = h.n, !.l = h.l],
                                    !.ok = /\ h.n >= st.con[h.id].n
                                           /\ (Top.k = "Forgetting" /\ E.ph = "e") \/ h.u = st.con[h.id].rank
                                           /\ (h.id \in st.new) => h.n = 1 /\ h.l = Top.x]
      [] OTHER -> st)
Folded == Fold(E.ch, [ok |-> TRUE, con |-> con, gone |-> {}, new |-> {}, found |-> {}])
\* only asking for a concept adds or removes one, as Concepts says
MemoryOk(f) ==
  /\ (f.new = {} /\ f.gone = {}) \/ (Top.k = "Conceptualize" /\ E.ph = "e")
  /\ (Top.k = "Conceptualize" /\ E.ph = "e") =>
        IF C!Known(con, Top.t) # {} THEN f.new = {} /\ f.gone = {}
        ELSE /\ \E i \in f.new : f.new = {i} /\ f.con[i].t = Top.t /\ i >= next
             /\ IF Cardinality(DOMAIN con) < Cap THEN f.gone = {}
                ELSE \E i \in f.gone : f.gone = {i} /\ i \in MayGo(con)
  /\ \A p \in f.found : p[2] = -1 \/ p[2] \in DOMAIN f.con
Ranked(f) == (Top.k = "Forgetting" /\ E.ph = "e") => \A i \in DOMAIN f.con : Abs(f.con[i].rank - Usefulness(f.con[i], Top.x)) <= 20
\* the indexes show exactly the live concepts
Agree(c, v) ==
  /\ Len(v.find) = Cardinality(DOMAIN c)
  /\ { v.find[k][1] : k \in 1..Len(v.find) } = DOMAIN c
  /\ \A k \in 1..Len(v.find) : v.find[k][1] = v.find[k][2]
  /\ Cardinality({ c[i].cell : i \in DOMAIN c }) = Cardinality(DOMAIN c)
  /\ Cardinality({ c[i].t : i \in DOMAIN c }) = Cardinality(DOMAIN c)
  /\ { v.idx[k][1] : k \in 1..Len(v.idx) } = UNION { c[i].at : i \in DOMAIN c }
  /\ \A k \in 1..Len(v.idx) : LET ids == v.idx[k][2] IN /\ Range(ids) = { i \in DOMAIN c : v.idx[k][1] \in c[i].at }
                                                         /\ Len(ids) = Cardinality(Range(ids))
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Len(Head(s)[2]) + Total(Tail(s))
TraceInit == l = 1 /\ stack = <<>> /\ con = [i \in {} |-> 0] /\ next = 0 /\ view = NoView
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1 /\ WellNested /\ stack' = StackAfter
  /\ IF E.k = "Reset" THEN con' = [i \in {} |-> 0] /\ next' = 0 /\ view' = NoView
     ELSE \E f \in {Folded} :
       /\ f.ok /\ MemoryOk(f) /\ Ranked(f) /\ con' = f.con
       /\ next' = IF f.new = {} THEN next ELSE 1 + CHOOSE i \in f.new : \A j \in f.new : j <= i
       /\ \E v \in { IF "find" \in DOMAIN E THEN [find |-> E.find, idx |-> E.idx, free |-> E.free] ELSE view } :
            /\ view' = v
            /\ (f.new # {} \/ v # view) => Agree(f.con, v) /\ v.free + Total(v.idx) = CellTotal
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
