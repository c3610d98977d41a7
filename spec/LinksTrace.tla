----------------------------- MODULE LinksTrace ----------------------------
(* Learned implications in recorded whole-system runs: where they are kept   *)
(* and how tables change (C05), and that those of forgotten concepts are     *)
(* discarded instead of used (C06).                                          *)
EXTENDS Rec
CONSTANTS Capacity, Property   \* "C05" or "C06"
K == INSTANCE Links WITH Cap <- 0, Cells <- {}, Names <- {}, Freqs <- {}, Confs <- {}, MaxId <- 0, mem <- 0, tab <- 0, ids <- 0, used <- 0
VARIABLES con,   \* live concepts: id -> term
          lnk    \* id -> operation -> table
tvars == <<l, stack, con, lnk>>
C05 == Property = "C05"
C06 == Property = "C06"
Empty == [i \in {} |-> 0]
TabOf(s, id, op) == IF op \in DOMAIN s[id] THEN s[id][op] ELSE <<>>
Alive(c, imp) == imp.src \in DOMAIN c
Removals(old, new) ==  \* indices of old that are kept, if new is a subsequence of old
  LET RECURSIVE Go(_, _)
      Go(i, j) == IF j > Len(new) THEN { i..Len(old) } ELSE IF i > Len(old) THEN {}
                  ELSE IF K!SameImp(old[i], new[j]) THEN Go(i+1, j+1) ELSE { {i} \cup s : s \in Go(i+1, j) }
  IN Go(1, 1)
\* ---- table changes
IsTable(fr) == fr.k = "Table"
Own(fr, h) == IsTable(fr) /\ h.id = fr.owner /\ h.op = fr.op
LinkOk(fr, h, c, old) ==
  IF Own(fr, h) THEN C05 => E.ph = "e" /\ K!Added(old, fr.imp, h.tab, Capacity) /\ K!Table(h.tab, Capacity)
  ELSE IF fr.k = "NegativeConfirmation" /\ Len(old) = Len(h.tab) THEN \A k \in 1..Len(old) : K!SameImp(old[k], [h.tab[k] EXCEPT !.src = old[k].src])
  ELSE \* elsewhere entries only disappear, and only such as have lost their antecedent's concept
       \E gone \in Removals(old, h.tab) : (C06 => \A k \in gone : ~Alive(c, old[k]))
\* a full table that does not take the new entry does not change
Unchanged(fr, s) == C05 /\ IsTable(fr) /\ fr.owner # -1 => K!Added(TabOf(s, fr.owner, fr.op), fr.imp, TabOf(s, fr.owner, fr.op), Capacity)

\* changes: [ok, con, lnk, own]
RECURSIVE Fold(_, _)
Fold(chs, st) ==
  IF chs = <<>> \/ ~st.ok THEN st
  ELSE LET h == Head(chs) IN Fold(Tail(chs),
    CASE h.k = "con-" -> [st EXCEPT !.con = [i \in DOMAIN @ \ {h.id} |-> @[i]], !.lnk = [i \in DOMAIN @ \ {h.id} |-> @[i]]]
      [] h.k = "con+" -> [st EXCEPT !.con = (h.id :> h.t) @@ @, !.lnk = (h.id :> Empty) @@ @]
      [] h.k = "link" -> [st EXCEPT !.lnk[h.id] = (h.op :> h.tab) @@ @, !.own = @ \/ (stack # <<>> /\ Own(Top, h)),
                                    !.ok = LinkOk(Top, h, st.con, TabOf(st.lnk, h.id, h.op))]
      [] OTHER -> st)
Folded == Fold(E.ch, [ok |-> TRUE, con |-> con, lnk |-> lnk, own |-> FALSE])
\* ---- an implication is stored with its consequence's concept
TableAt == E.k = "Table" =>
  /\ E.owner \in DOMAIN con
  /\ con[E.owner] = E.imp.t[3]
  /\ C05 => IF IsOp(E.imp.t, Imp) THEN E.op = -1
            ELSE E.opname = K!EndingOp(E.imp.t) \/ (E.op = 0 /\ E.opname = "" /\ ~E.known)
  \* (C06) and with the concept of its antecedent
  /\ C06 /\ Top.k = "NewBelief" => E.imp.src \in DOMAIN con /\ con[E.imp.src] = K!Antecedent(E.imp.t)
\* ---- use
Held(f, imp) == Alive(f.con, imp) /\ imp.cell = imp.src
UseOk(f) ==
  C06 =>
  CASE E.k = "NegativeConfirmation" /\ E.ph = "b" -> Held(f, E.imp) /\ E.c \in DOMAIN f.con /\ f.con[E.c] = E.imp.t[3]
    [] E.k \in {"Subgoal", "Predict", "Outcome", "Consider"} -> Held(f, E.imp) /\ f.con[E.imp.src] = K!Antecedent(E.imp.t) 
    [] OTHER -> TRUE
TraceInit == l = 1 /\ stack = <<>> /\ con = Empty /\ lnk = Empty
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1 /\ WellNested /\ stack' = StackAfter
  /\ IF E.k = "Reset" THEN con' = Empty /\ lnk' = Empty
     ELSE \E f \in {Folded} :
       /\ f.ok /\ con' = f.con /\ lnk' = f.lnk
       /\ (E.ph = "b" => TableAt)
       /\ (E.ph = "e" /\ E.k = "Table" /\ ~f.own => Unchanged(Top, lnk))
       /\ UseOk(f)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
