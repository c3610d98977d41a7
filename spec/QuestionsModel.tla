---------------------------- MODULE QuestionsModel --------------------------
(* Finding the best answer by looking at the concepts one after the other    *)
(* (what the system does), over all small memories: the result is a best     *)
(* candidate as Questions.tla defines it, and there is none exactly when     *)
(* nothing matches; a query meets each candidate above its threshold once.   *)
EXTENDS Questions, SequencesExt
CONSTANTS Size, Clock
NoNums == [x \in {} |-> 0]
VARIABLES mem, q, tense, at, best, listed
vars == <<mem, q, tense, at, best, listed>>
Thr == 50000000
Ev(t, f, c, o) == [NoEvent EXCEPT !.t = t, !.ty = "b", !.f = f, !.c = c, !.st = <<1>>, !.o = o]
Names == {<<Inh, <<"x">>, <<"y">>>>, <<Inh, <<"z">>, <<"y">>>>, <<"a">>}
Qs == {<<Inh, <<"?1">>, <<"y">>>>, <<"a">>, <<TImp, <<"?1">>, <<"a">>>>}
Strong == 90000000
Weak == 45000000
Maybe(S) == {NoEvent} \cup S
Bs(t) == Maybe({ Ev(t, One, Strong, Eternal), Ev(t, 0, Weak, Eternal) })
Ss(t) == Maybe({ Ev(t, One, Strong, o) : o \in {1, Clock} } \cup { Ev(t, 0, Weak, o) : o \in {2, Clock} })
Ps(t) == Maybe({ Ev(t, One, Weak, Clock + 2), Ev(t, One, Strong, Clock), Ev(t, 0, Strong, Clock + 9) })
Tab(t, n) == [k \in 1..n |-> [t |-> <<TImp, <<"b">>, t>>, f |-> One, c |-> IF k = 1 THEN Strong ELSE Weak, st |-> <<k>>, ct |-> k]]
Nothing == [i |-> 0, rank |-> -1]
Init ==
  /\ tense \in 0..3 /\ q \in Qs
  /\ \E nm \in [1..Size -> Names] :
       /\ \A i, j \in 1..Size : i # j => nm[i] # nm[j]
       /\ \E b \in [1..Size -> IF tense = 0 \/ IsOp(q, TImp) THEN 0..2 ELSE {0}],
          s \in [1..Size -> IF tense = 0 \/ IsOp(q, TImp) THEN {0} ELSE 0..4],
          p \in [1..Size -> IF tense = 0 \/ IsOp(q, TImp) THEN {0} ELSE 0..3] :
            LET Pick(S, k) == IF k = 0 THEN NoEvent ELSE SetToSeq(S \ {NoEvent})[k]
            IN mem = [con |-> nm,
                      b |-> [i \in 1..Size |-> IF tense = 0 THEN Pick(Bs(nm[i]), b[i]) ELSE NoEvent],
                      s |-> [i \in 1..Size |-> IF tense # 0 THEN Pick(Ss(nm[i]), s[i]) ELSE NoEvent],
                      p |-> [i \in 1..Size |-> IF tense # 0 THEN Pick(Ps(nm[i]), p[i]) ELSE NoEvent],
                      lnk |-> [i \in 1..Size |-> (1 :> Tab(nm[i], b[i]))]]
  /\ at = 1 /\ best = Nothing /\ listed = <<>>
\* one concept
Better(k, d) == d = Nothing \/ k.rank > d.rank \/ (k.rank = d.rank /\ (tense = 0 \/ k.o > d.o))
RECURSIVE Consider(_, _)
Consider(ks, d) == IF ks = <<>> THEN d ELSE Consider(Tail(ks), IF Better(Head(ks), d) THEN Head(ks) ELSE d)
Found(i) ==
  IF IsOp(q, TImp) THEN IF ~Asks(q[3], mem.con[i]) THEN <<>>
                        ELSE LET tab == SelectSeq(mem.lnk[i][1], LAMBDA e : Asks(q, e.t)) IN [k \in 1..Len(tab) |-> FromImp(tab[k])]
  ELSE IF ~Asks(q, mem.con[i]) THEN <<>>
  ELSE IF tense = 0 THEN IF mem.b[i].ty = "-" THEN <<>> ELSE <<FromEvent(i, "b", mem.b[i], Worth(Tv(mem.b[i])))>>
  ELSE LET One2(e, in, ts) == IF tense \in ts /\ e.ty # "-" THEN <<FromEvent(i, in, e, Worth(Project(Tv(e), e.o, Clock)))>> ELSE <<>>
       IN One2(mem.s[i], "s", Present) \o One2(mem.p[i], "p", Future)
Next ==
  /\ at <= Size /\ at' = at + 1
  /\ \E ks \in {Found(at)} :
       /\ best' = Consider(ks, best)
       /\ listed' = listed \o SelectSeq(ks, LAMBDA k : k.rank > Thr)
  /\ UNCHANGED <<mem, q, tense>>
Spec == Init /\ [][Next]_vars
Cands == Candidates(q, tense, mem, Clock)
Right == at > Size => IF Cands = {} THEN best = Nothing ELSE Best(Cands, best)
Complete == at > Size => /\ Items(listed) = Above(Cands, Thr) /\ Above(Cands, Thr) = MaybeAbove(Cands, Thr)
                         /\ Len(listed) = Cardinality(Items(listed))
=============================================================================
