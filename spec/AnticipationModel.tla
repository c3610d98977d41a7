-------------------------- MODULE AnticipationModel ------------------------
(* Three links (without operation, with ^left, general with ^right done to   *)
(* the same thing) predicting again and again, with and without success.     *)
EXTENDS Anticipation, TLC
K == INSTANCE Links WITH Cap <- 0, Cells <- {}, Names <- {}, Freqs <- {}, Confs <- {}, MaxId <- 0, mem <- 0, tab <- 0, ids <- 0, used <- 0
VARIABLES lnk, spk, prd, now, done, before
mvars == <<lnk, spk, prd, now, done, before>>
NoNums == [x \in {} |-> 0]
Is(x, y) == <<Inh, <<x>>, <<y>>>>
Done(x, op) == <<Inh, <<Prod, <<ExtSet, <<"SELF">>, <<End>>>>, <<x>>>>, <<op>>>>
Con == <<<<"a">>, <<"b">>, Is("x", "p"), Is("x", "q"), Is("$1", "p"), Is("$1", "q")>>
Ev(i, n, f, c) == [NoEvent EXCEPT !.t = Con[i], !.ty = "b", !.f = f, !.c = c, !.st = <<n>>, !.o = now]
Link(t, f, c, n, dt, src) == [t |-> t, f |-> f, c |-> c, st |-> <<n>>, dt |-> dt, ct |-> 0, src |-> src, cell |-> src]
None == [i \in {} |-> 0]
Lefts == <<<<TImp, Con[1], Con[2]>>, <<TImp, <<Seq2, Con[1], <<"^left">>>>, Con[2]>>, <<TImp, <<Seq2, Con[5], Done("$1", "^right")>>, Con[6]>>>>
Init == /\ \E f \in {0, 50000000, One}, c \in {4000000, 50000000, 90000000}, dt \in {0, 1000, 3500} :
             lnk = [i \in {2, 6} |-> IF i = 2 THEN [o \in {0, 1} |-> IF o = 0 THEN <<Link(Lefts[1], f, c, 91, dt, 1)>> ELSE <<Link(Lefts[2], f, c, 92, dt, 1)>>]
                                     ELSE [o \in {2} |-> <<Link(Lefts[3], f, c, 93, dt, 5)>>]]
        /\ spk = None /\ prd = None /\ now = 1 /\ done = <<>> /\ before = lnk
\* an antecedent is observed (the general concept takes up its instances)
Observe == /\ Len(done) < 3 /\ done' = Append(done, <<-1, NoTerm>>)
           /\ \E i \in {1, 3}, f \in {0, One}, c \in {90000000} :
                spk' = IF i = 1 THEN (1 :> Ev(1, now, f, c)) @@ spk ELSE (3 :> Ev(3, now, f, c)) @@ ((5 :> Ev(3, now, f, c)) @@ spk)
           /\ UNCHANGED <<lnk, prd, now, before>>
\* something is done, or happens (op 0): all that it suits predict
RECURSIVE All(_, _)
All(st, ps) ==
  IF ps = {} THEN st
  ELSE LET x == CHOOSE x \in ps : TRUE
           e == spk[x[2].src]
           p == CHOOSE q \in Predictions(e, x[2], st.op, now) : TRUE
           k == CHOOSE k \in 1..Len(st.lnk[x[1]][st.op]) : st.lnk[x[1]][st.op][k] = x[2]
           neg == CHOOSE n \in Failures(e, x[2]) : TRUE
           q == CHOOSE q \in Effect(Con, x[2], e, p) : TRUE
           i == CHOOSE i \in 1..Len(Con) : Con[i] = q.t
           old == IF i \in DOMAIN st.prd THEN st.prd[i] ELSE NoEvent
       IN All(IF MustCount(p, FALSE) THEN [st EXCEPT !.lnk[x[1]][st.op][k] = K!MergedImp(@, neg), !.prd = (i :> CHOOSE r \in Updated(old, q, e, x[2], FALSE) : TRUE) @@ @]
              ELSE st, ps \ {x})
Do(op, t) == /\ Len(done) < 3 /\ now' = now + 1
             /\ \E r \in {All([lnk |-> lnk, prd |-> prd, op |-> op], Predictors([i \in 1..6 |-> Con[i]], spk, lnk, op, t))} : lnk' = r.lnk /\ prd' = r.prd
             /\ done' = Append(done, <<op, t>>) /\ before' = lnk /\ UNCHANGED spk
Next == Observe \/ Do(0, NoTerm) \/ Do(1, <<"^left">>) \/ Do(2, Done("x", "^right")) \/ Do(2, Done("y", "^right"))
Spec == Init /\ [][Next]_mvars
Lnk(k, op) == lnk[k][op][1]
\* only links that what was done suits are affected, and they lose, but little
Affected == [][\A k \in DOMAIN lnk : \A op \in DOMAIN lnk[k] : lnk'[k][op] # lnk[k][op] =>
                 /\ Len(done') > Len(done) /\ done'[Len(done')][1] = op
                 /\ Len(lnk'[k][op]) = 1
                 /\ op = 2 => done'[Len(done')][2] = Done("x", "^right")
                 /\ LET a == lnk[k][op][1] b == lnk'[k][op][1]
                    IN /\ b.f <= a.f + Tol /\ b.c >= a.c - Tol /\ Exp(TV(b.f, b.c)) <= Exp(TV(a.f, a.c)) + Tol
                       /\ b.dt = a.dt /\ b.t = a.t
                       /\ Exp(TV(a.f, a.c)) - Exp(TV(b.f, b.c)) < 1000000]_mvars
\* predictions are about the future, or the present
Ahead == \A i \in DOMAIN prd : prd[i].t = Con[i] /\ prd[i].o >= 1 /\ prd[i].f >= 0
\* a confirmation by a certain event brings more evidence than the failure assumed took: the induced link's confidence is the greater one
Pays == \A i \in DOMAIN spk : spk[i].f = One => \A k \in DOMAIN lnk, op \in {0, 1, 2} : op \in DOMAIN lnk[k] =>
          \A n \in Failures(spk[i], Lnk(k, op)), d \in Rounded(Lnk(k, op).dt) :
            n.c * 10 < W2C(Induction(TV(One, 50000000), Project(Tv(spk[i]), 0, d)).c)
=============================================================================
