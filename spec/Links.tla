------------------------------- MODULE Links -------------------------------
(* Tables of learned implications (C05) and their use (C06).  An implication *)
(* is [t, f, c, st, dt, ct, src, ...]; src is the identity of the concept of *)
(* its antecedent.                                                           *)
EXTENDS Events
LOCAL INSTANCE TLC
ETol == 3000    \* expectations that fixed point cannot tell apart
Exp8(i) == Exp(Tv(i))
SameImp(a, b) == a.t = b.t /\ a.st = b.st /\ Near(a.f, b.f) /\ Near(a.c, b.c) /\ Abs(a.dt - b.dt) <= 5 /\ a.src = b.src
Sorted(tab) == \A k \in 1..Len(tab)-1 : Exp8(tab[k]) >= Exp8(tab[k+1]) - ETol
UniqueTerms(tab) == Cardinality({ tab[k].t : k \in 1..Len(tab) }) = Len(tab)
Table(tab, cap) == Len(tab) <= cap /\ Sorted(tab) /\ UniqueTerms(tab)
Remove(tab, k) == SubSeq(tab, 1, k-1) \o SubSeq(tab, k+1, Len(tab))
Insert(tab, k, i) == SubSeq(tab, 1, k-1) \o <<i>> \o SubSeq(tab, k, Len(tab))

\* old and new evidence for one implication: weights are the evidence amounts c/(1-c)
MergedImp(old, imp) ==
  LET u1 == Mul(old.c, One - imp.c)   u2 == Mul(imp.c, One - old.c)
      k == IF u1 + u2 = 0 THEN Half ELSE Div(Min2(u1, u1 + u2), u1 + u2)
      d == old.dt - imp.dt
      r == Revision(Tv(old), Tv(imp))
  IN [old EXCEPT !.f = r.f, !.c = r.c, !.st = Stamp(old.st, imp.st), !.dt = IF d >= 0 THEN imp.dt + Mul(k, d) ELSE imp.dt - Mul(k, -d),
                 !.ct = Max2(old.ct, imp.ct), !.t = imp.t]
SameTab(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : SameImp(a[k], b[k]) /\ a[k].ct = b[k].ct
\* may adding imp to table old result in table new?
Added(old, imp, new, cap) ==
  LET same == { k \in 1..Len(old) : old[k].t = imp.t } IN
  IF same # {} THEN LET s == CHOOSE k \in same : TRUE
                        rest == Remove(old, s)
                        m == MergedImp(old[s], imp)
                    IN \E k \in 1..Len(old) : SameTab(new, Insert(rest, k, m))
  ELSE IF Len(old) < cap THEN \E k \in 1..Len(old)+1 : SameTab(new, Insert(old, k, imp))
  ELSE LET low == Exp8(old[Len(old)]) IN
       \/ Exp8(imp) >= low - ETol /\ \E k \in 1..Len(old) : SameTab(new, Insert(Remove(old, Len(old)), k, imp))
       \/ Exp8(imp) <= low + ETol /\ SameTab(new, old)

\* where an implication belongs: the concept of its consequence, the table of the operation that ends its antecedent
\* sequence ("" for none), and the concept its antecedent without operations has
IsImplication(t) == IsOp(t, TImp) \/ IsOp(t, Imp)
EndingOp(t) == IF IsOp(t, TImp) /\ IsOp(t[2], Seq2) /\ IsOperation(t[2][3]) THEN OpOf(t[2][3]) ELSE ""
Antecedent(t) == IF EndingOp(t) # "" THEN WithoutOp(t[2]) ELSE t[2]

\* ---------------------------------------------------------------- exhaustive model: tables whose antecedents may be forgotten
CONSTANTS Cap, Cells, Names, Freqs, Confs, MaxId
VARIABLES mem,    \* cell -> [id, name]; id -1 for none
          tab,    \* one table
          ids, used
mvars == <<mem, tab, ids, used>>
ImpOf(n, cell, f, c) == [t |-> <<TImp, <<n>>, <<"g">>>>, f |-> f, c |-> c, st |-> <<>>, dt |-> 1000, ct |-> 0, src |-> mem[cell].id, cell |-> cell]
Init == mem = [x \in Cells |-> [id |-> -1, name |-> "-"]] /\ tab = <<>> /\ ids = 0 /\ used = {}
\* the concept in cell x makes room for a new one
Recycle(x, n) == /\ ids < MaxId /\ \A y \in Cells : mem[y].name # n
                 /\ mem' = [mem EXCEPT ![x] = [id |-> ids, name |-> n]] /\ ids' = ids + 1 /\ UNCHANGED <<tab, used>>
Positions(old, new) == { k \in 1..Len(new) : \A j \in 1..Len(old) : old[j] # new[k] }
Learn(x, f, c) == /\ mem[x].id # -1
                  /\ LET imp == ImpOf(mem[x].name, x, f, c)
                         same == { k \in 1..Len(tab) : tab[k].t = imp.t }
                         rest == IF same = {} THEN (IF Len(tab) < Cap THEN tab ELSE Remove(tab, Len(tab))) ELSE Remove(tab, CHOOSE k \in same : TRUE)
                         e == IF same = {} THEN imp ELSE MergedImp(tab[CHOOSE k \in same : TRUE], imp)
                     IN tab' = IF same = {} /\ Len(tab) = Cap /\ Exp8(imp) <= Exp8(tab[Cap]) THEN tab
                               ELSE LET k == CHOOSE k \in 1..Len(rest)+1 : (\A j \in 1..k-1 : Exp8(rest[j]) >= Exp8(e)) /\ (k = Len(rest)+1 \/ Exp8(rest[k]) < Exp8(e))
                                    IN Insert(rest, k, e)
                  /\ UNCHANGED <<mem, ids, used>>
\* an implication is used through its cell if the concept in it is still the one it was learned with, and discarded otherwise
Use(k) == /\ k \in 1..Len(tab)
          /\ IF mem[tab[k].cell].id = tab[k].src THEN used' = {<<tab[k].t[2][1], mem[tab[k].cell].name>>} /\ UNCHANGED <<mem, tab, ids>>
             ELSE tab' = Remove(tab, k) /\ UNCHANGED <<mem, ids, used>>
Next == \/ \E x \in Cells, n \in Names : Recycle(x, n)
        \/ \E x \in Cells, f \in Freqs, c \in Confs : Learn(x, f, c)
        \/ \E k \in 1..Cap : Use(k)
Spec == Init /\ [][Next]_mvars
TableOk == Table(tab, Cap)
UseOk == \A u \in used : u[1] = u[2]
AddedOk == [][ids' = ids /\ Len(tab') > 0 /\ tab' # tab /\ Len(tab') >= Len(tab) => \E x \in Cells, f \in Freqs, c \in Confs : mem[x].id # -1 /\ Added(tab, ImpOf(mem[x].name, x, f, c), tab', Cap)]_mvars
Small == ids <= MaxId /\ \A k \in 1..Len(tab) : tab[k].c < 75000000
=============================================================================
