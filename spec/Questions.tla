------------------------------ MODULE Questions ----------------------------
(* What a question is answered with (C15).  A memory is a record of          *)
(* functions over the concepts: con (terms), b (beliefs), s (latest belief   *)
(* events), p (predictions), lnk (tables of implications).                   *)
EXTENDS Events, Inference, Narsese
Asks(q, t) == MatchV(q, t, QueryVars, FALSE).ok
\* the expectation, exact where the frequency says nothing
Worth(v) == IF v.f = Half THEN Half ELSE Exp(v)
FromEvent(i, in, e, rank) == [i |-> i, in |-> in, t |-> e.t, f |-> e.f, c |-> e.c, st |-> e.st, o |-> e.o, ct |-> e.ct, rank |-> rank]
FromImp(e)          == [i |-> -1, in |-> "-", t |-> e.t, f |-> e.f, c |-> e.c, st |-> e.st, o |-> Eternal, ct |-> e.ct, rank |-> Worth(TV(e.f, e.c))]
Present == {1, 2}   \* tenses: 0 none, 1 now, 2 past, 3 future
Future  == {1, 3}
Items(s) == { s[k] : k \in 1..Len(s) }
Implications(q, m) == { FromImp(e) : e \in { x \in UNION { UNION { Items(m.lnk[i][o]) : o \in (DOMAIN m.lnk[i]) \cap (IF IsOp(q, TImp) THEN 0..100 ELSE {-1}) } : i \in DOMAIN m.lnk } : Asks(q, x.t) } }
Naming(q, m) == { i \in DOMAIN m.con : Asks(q, m.con[i]) }
Beliefs(q, m) == { FromEvent(i, "b", m.b[i], Worth(Tv(m.b[i]))) : i \in { j \in Naming(q, m) : m.b[j].ty # "-" } }
Happening(q, tense, m, now) ==
  LET Of(slot, in) == { FromEvent(i, in, slot[i], Worth(Project(Tv(slot[i]), slot[i].o, now))) : i \in { j \in Naming(q, m) : slot[j].ty # "-" } }
  IN (IF tense \in Present THEN Of(m.s, "s") ELSE {}) \cup (IF tense \in Future THEN Of(m.p, "p") ELSE {})
\* a question about implications is answered from what was learned, one that leaves the consequence open also from beliefs
Open(q) == Leaf(q[3]) /\ q[3][1] \in QueryVars
Candidates(q, tense, m, now) ==
  CASE IsOp(q, TImp) -> Implications(q, m)
    [] IsOp(q, Imp)  -> Implications(q, m) \cup (IF Open(q) THEN Beliefs(q, m) ELSE {})
    [] tense = 0     -> Beliefs(q, m)
    [] OTHER         -> Happening(q, tense, m, now)
Best(cands, k) == k \in cands /\ \A j \in cands : j.rank <= k.rank + 2 * Tol
Above(cands, thr)    == { k \in cands : k.rank > thr /\ (k.f = Half \/ k.rank > thr + 2 * Tol) }
MaybeAbove(cands, thr) == { k \in cands : k.rank > thr - 2 * Tol /\ (k.f = Half => k.rank > thr) }

\* ---- as it is printed
RECURSIVE Marks(_)
Marks(n) == IF n = 0 THEN "" ELSE IF n = 1 THEN "#" ELSE "#," \o Marks(n - 1)
Text(k) == "Answer: " \o Show(k.t) \o (IF k.o = Eternal THEN ". creationTime=# " ELSE ". :|: occurrenceTime=# creationTime=# ")
           \o "Stamp=[" \o Marks(Len(k.st)) \o "] Truth: frequency=#, confidence=#"
Printed(a, b) == Abs(a - b) <= 60    \* six decimals are printed
Whole(k) == (IF k.o = Eternal THEN <<k.ct>> ELSE <<k.o, k.ct>>) \o k.st
Says2(line, k) ==
  LET n == Len(line.v) IN
  /\ line.s = Text(k)
  /\ n >= 2 /\ Printed(line.v[n-1], k.f) /\ Printed(line.v[n], k.c)
  /\ SubSeq(line.v, 1, n - 2) = Whole(k)
Asked(q, tense) == "Input: " \o Show(q) \o "?" \o (CASE tense = 1 -> " :|:" [] tense = 2 -> " :\\:" [] tense = 3 -> " :/:" [] OTHER -> "")
NoAnswer == "Answer: None."
AnswersWith(out, cands, k) == Len(out) = 1 /\ Best(cands, k) /\ Says2(out[1], k)
Answered(out, cands) == IF cands = {} THEN Len(out) = 1 /\ out[1].s = NoAnswer ELSE \E k \in cands : AnswersWith(out, cands, k)
Listed(out, cands, thr) ==
  /\ \A k \in Above(cands, thr) : \E x \in 1..Len(out) : Says2(out[x], k)
  /\ \A x \in 1..Len(out) :
       Cardinality({ y \in 1..Len(out) : out[y] = out[x] }) <= Cardinality({ k \in MaybeAbove(cands, thr) : Says2(out[x], k) })
\* the attention the answering concept gets: u is [n, l, u, p]
Boost == 1000000
Primed(u, tense, now, priming) == [u EXCEPT !.n = @ + (IF tense = 0 THEN Boost ELSE 1), !.l = now, !.p = Max2(@, priming)]
=============================================================================
