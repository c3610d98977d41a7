-------------------------------- MODULE Shell ------------------------------
(* What the lines of the shell do to the settings, and what its listings     *)
(* show (C21).  set: the settings as recorded.                               *)
EXTENDS Events, Narsese
LOCAL X == INSTANCE Text
NearD(a, b) == Abs(a - b) <= 2          \* decimals as typed
\* ---- measured values
RECURSIVE Power10(_)
Power10(n) == IF n = 0 THEN 1 ELSE 10 * Power10(n - 1)
RECURSIVE Pad(_, _)
Pad(s, n) == IF Len(s) >= n THEN s ELSE Pad("0" \o s, n)
\* the decimal v with d digits; both neighbours when it is in the middle
Rounded(v, d) == LET u == Power10(8 - d)  lo == v \div u  r == v % u
                 IN (IF 2 * r <= u THEN {lo} ELSE {}) \cup (IF 2 * r >= u THEN {lo + 1} ELSE {})
Digits3(n, d) == LET p == Power10(d) IN ToString(n \div p) \o "." \o Pad(ToString(n % p), d)
Places(gran) == IF gran <= 10 THEN 1 ELSE IF gran <= 100 THEN 2 ELSE 3
ValueNames(v, gran, name) == { (IF name = "" THEN "" ELSE name \o "_") \o Digits3(n, Places(gran)) : n \in Rounded(v, Places(gran)) }
\* values: a set of [n |-> names possible, v |-> value, m |-> what is measured]
Word(w, i) == IF i <= Len(w) THEN w[i] ELSE ""
Values(s) ==
  LET w == X!Words(X!After("*setvalue ", s)) IN { [n |-> ValueNames(X!Decimal(w[1]), X!Nat10(w[2]), Word(w, 3)), v |-> X!Decimal(w[1]), m |-> Word(w, 3)] }
Space(s) ==
  LET w == X!Words(X!After("*space ", s))  gran == X!Nat10(w[1])
      Part(i) == (i * (1000000 \div gran) + (i * (1000000 % gran) + gran \div 2) \div gran) * 100    \* i/gran to six digits
  IN { [n |-> ValueNames(Part(i), gran, Word(w, 2)), v |-> Part(i), m |-> Word(w, 2)] : i \in 0..gran-1 }
Fits2(y, x) == y[1] \in x.n /\ NearD(y[2], x.v) /\ y[3] = x.m
\* what becomes of the values known: each of xs is set, the others stay
ValuesOk(old, new, xs) ==
  LET O == { old[i] : i \in 1..Len(old) }  N == { new[i] : i \in 1..Len(new) } IN
  /\ \A x \in xs : \E y \in N : Fits2(y, x)
  /\ \A y \in N : y \in O \/ \E x \in xs : Fits2(y, x)
  /\ \A y \in O : \E z \in N : z[1] = y[1]
  /\ Cardinality({ y[1] : y \in N }) = Cardinality(N)
\* ---- operations
NoArgs(n) == [k \in 1..n |-> NoTerm]
\* a name is registered for one slot only; with a name that moves, those of all slots after its old one are given up
Registered(ops, i, name) ==
  LET at == { k \in 1..Len(ops) : ops[k].t = <<name>> }
      cleared == IF at = {} THEN ops ELSE [k \in 1..Len(ops) |-> IF \E j \in at : j <= k THEN [ops[k] EXCEPT !.t = NoTerm] ELSE ops[k]]
  IN [cleared EXCEPT ![i].t = <<name>>]
\* ---- the settings after a command; arg: the term given on the line
Number(c, s) == X!Decimal(X!After(c, s))
Effect(set, c, s, arg) ==
  CASE c = "*volume=0" -> [set EXCEPT !.volume = One]
    [] c = "*volume=100" -> [set EXCEPT !.volume = 0]
    [] c = "*volume=" -> [set EXCEPT !.volume = One - X!IntOf(X!After(c, s)) * 1000000]
    [] c = "*restrictedconceptcreation=true" -> [set EXCEPT !.restricted = TRUE]
    [] c = "*restrictedconceptcreation=false" -> [set EXCEPT !.restricted = FALSE]
    [] c = "*anticipationconfidence=" -> [set EXCEPT !.anticipation = Number(c, s)]
    [] c = "*decisionthreshold=" -> [set EXCEPT !.decision = Number(c, s)]
    [] c = "*similaritydistance=" -> [set EXCEPT !.similarity = Number(c, s)]
    [] c = "*babblingops=" -> [set EXCEPT !.babblers = X!IntOf(X!After(c, s))]
    [] c = "*motorbabbling=false" -> [set EXCEPT !.babbling = 0]
    [] c = "*motorbabbling=true" -> [set EXCEPT !.babbling = 20000000]
    [] c = "*motorbabbling=" -> [set EXCEPT !.babbling = Number(c, s)]
    [] c = "*questionpriming=" -> [set EXCEPT !.priming = Number(c, s)]
    [] c = "*setopname " -> LET w == X!Words(X!After(c, s)) IN [set EXCEPT !.ops = Registered(@, X!Nat10(w[1]), w[2])]
    [] c = "*setoparg "  -> LET w == X!Words(X!After(c, s)) IN [set EXCEPT !.ops[X!Nat10(w[1])].args[X!Nat10(w[2])] = arg]
    [] c = "*setopstdin " -> [set EXCEPT !.ops[X!Nat10(X!After(c, s))].stdin = TRUE]
    [] OTHER -> set
Decimals == {"volume", "anticipation", "decision", "similarity", "babbling", "priming"}
Exact == {"restricted", "babblers", "ops", "other"}
NamesValue(c) == c \in {"*setvalue ", "*space "}
NamesImport(c) == c = "*stampimport=["
RECURSIVE ListOf(_)
ListOf(s) ==   \* numbers separated by commas, up to "]"
  LET comma == { i \in 1..Len(s) : X!At(s, i) \in {",", "]"} }
      i == CHOOSE x \in comma : \A y \in comma : x <= y
  IN IF comma = {} THEN <<>> ELSE IF i = 1 THEN ListOf(X!From(s, 2)) ELSE <<X!IntOf(SubSeq(s, 1, i - 1))>> \o (IF X!At(s, i) = "]" THEN <<>> ELSE ListOf(X!From(s, i + 1)))
\* the settings `new` are right after command c on line s; they were `old`
SetOk(old, new, c, s, arg) ==
  LET want == Effect(old, c, s, arg) IN
  /\ \A k \in Decimals : NearD(new[k], want[k])
  /\ \A k \in Exact : new[k] = want[k]
  /\ new.import = (IF NamesImport(c) THEN Cut(ListOf(X!After(c, s))) ELSE old.import)
  /\ IF NamesValue(c) THEN ValuesOk(old.values, new.values, IF c = "*space " THEN Space(s) ELSE Values(s)) ELSE new.values = old.values

\* ---- listings: a line is [s |-> text with # for numbers, v |-> the numbers]
Six(a, b) == Abs(a - b) <= 60
Line(s, v) == [s |-> s, v |-> v]
\* got is the line wanted; dec: which numbers are decimals
Like(got, want, dec) == /\ got.s = want.s /\ Len(got.v) = Len(want.v)
                        /\ \A i \in 1..Len(got.v) : IF i \in dec THEN Six(got.v[i], want.v[i]) ELSE got.v[i] = want.v[i]
Quoted(t) == "\"" \o Show(t) \o "\""
Header(t) == "//" \o Show(t) \o ": { \"priority\": #, \"usefulness\": #, \"useCount\": #, \"lastUsed\": #, \"frequency\": #, \"confidence\": #, \"termlinks\": ["
             \o Quoted(L(t)) \o ", " \o Quoted(R(t)) \o ", " \o Quoted(L(L(t))) \o ", " \o Quoted(R(L(t))) \o ", " \o Quoted(L(R(t))) \o ", " \o Quoted(R(R(t))) \o "]}"
\* a belief or implication as it could be typed in again
BeliefLine(e, got) == Like(got, Line(Show(e.t) \o ". {# #}", <<e.f, e.c>>), {1, 2})
Offset(got, dt) == IF dt > 20000 THEN got = 2100000000 ELSE Abs(got - dt * 100000) <= 50100
ImpLine(e, got) == /\ got.s = "dt=# " \o Show(e.t) \o ". {# #}" /\ Len(got.v) = 3
                   /\ Offset(got.v[1], e.dt) /\ Six(got.v[2], e.f) /\ Six(got.v[3], e.c)
\* m: memory as in ShellTrace; the implications of concept i in listing order
RECURSIVE Tables(_, _, _)
Tables(lnk, op, last) == IF op > last THEN <<>> ELSE (IF op \in DOMAIN lnk THEN lnk[op] ELSE <<>>) \o Tables(lnk, op + 1, last)
ConceptOk(out, at, i, m, nops) ==
  LET b == m.b[i]  has == b.ty # "-"  u == m.use[i]  imps == Tables(m.lnk[i], 0, nops)
      n == IF has THEN 1 ELSE 0
  IN /\ Len(out) >= at + n + Len(imps)
     /\ Like(out[at], Line(Header(m.con[i]), <<u.p, u.u, u.n, u.l, IF has THEN b.f ELSE 0, IF has THEN b.c ELSE 0>>), {1, 2, 5, 6})
     /\ has => BeliefLine(b, out[at + 1])
     /\ \A k \in 1..Len(imps) : ImpLine(imps[k], out[at + n + k])
RECURSIVE Sizes(_, _, _)
Sizes(S, m, nops) == IF S = {} THEN 0 ELSE LET i == CHOOSE x \in S : TRUE IN
                     1 + (IF m.b[i].ty # "-" THEN 1 ELSE 0) + Len(Tables(m.lnk[i], 0, nops)) + Sizes(S \ {i}, m, nops)
ConceptsOk(out, m, nops) ==
  /\ Len(out) = 2 + Sizes(DOMAIN m.con, m, nops)
  /\ out[1] = Line("//*concepts", <<>>) /\ out[Len(out)] = Line("//*done", <<>>)
  /\ \E heads \in { { p \in 1..Len(out) : X!Prefix("//", out[p].s) } } :
       \A i \in DOMAIN m.con : \E h \in {Header(m.con[i])} : \E p \in heads : out[p].s = h /\ ConceptOk(out, p, i, m, nops)
QueueOk(out, items, title, open) ==
  /\ Len(out) = Len(items) + 2 /\ out[1] = Line(title, <<>>) /\ out[Len(out)] = Line("//*done", <<>>)
  /\ \A k \in 1..Len(items) :
       LET e == items[k].e IN
       Like(out[k + 1], Line(Show(e.t) \o ": {" \o open \o "\"priority\": #, \"time\": # } Truth: frequency=#, confidence=#", <<items[k].p, e.o, e.f, e.c>>), {1, 3, 4})
IndexOk(out, m) ==
  LET lines == { Written(a) \o " -> " \o Show(m.con[i]) : <<a, i>> \in UNION { { <<a, i>> : a \in Indexed(m.con[i]) } : i \in DOMAIN m.con } }
      n == Len(out)
      got == { out[k].s : k \in 2..n-1 }
  IN /\ n >= 2 /\ out[1].s = "printing inverted atom table content:" /\ out[n].s = "table print finish"
     /\ got = lines /\ Cardinality(got) = n - 2
\* operations and their arguments as commands
RECURSIVE OpLines(_, _)
OpLines(ops, i) ==
  IF i > Len(ops) THEN <<>>
  ELSE (IF ops[i].t = NoTerm THEN <<>> ELSE <<Line("*setopname # " \o Show(ops[i].t), <<i>>)>>)
       \o LET ks == SelectSeq([k \in 1..Len(ops[i].args) |-> k], LAMBDA k : ops[i].args[k] # NoTerm)
          IN [k \in 1..Len(ks) |-> Line("*setoparg # # " \o Show(ops[i].args[ks[k]]), <<i, ks[k]>>)]
       \o OpLines(ops, i + 1)
OpConfigOk(out, set) ==
  LET want == OpLines(set.ops, 1) IN
  /\ Len(out) = 3 + Len(want)
  /\ out[1] = Line("//*opconfig", <<>>) /\ Like(out[2], Line("*motorbabbling=#", <<set.babbling>>), {1}) /\ out[3] = Line("*babblingops=#", <<set.babblers>>)
  /\ \A k \in 1..Len(want) : out[k + 3] = want[k]
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
RECURSIVE SumOver(_, _, _)
SumOver(S, f, k) == IF S = {} THEN 0 ELSE LET i == CHOOSE x \in S : TRUE IN f[i][k] \div 1000 + SumOver(S \ {i}, f, k)
\* an average (six decimals) of values in 1e-8 that sum up to 1000 s over a memory for n
Average(got, s, n) == LET want == s \div n  r == s % n IN Abs(got - (want * 1000 + (r * 1000) \div n)) <= 1200
StatsOk(out, m, now, caps) ==
  LET Is1(k, text) == out[k].s = text \o "#" /\ Len(out[k].v) = 1
      V(k) == out[k].v[1]
      goals == UNION { { <<y, k>> : k \in 1..Len(m.q[y]) } : y \in (DOMAIN m.q) \ {-1} }
      Prios(items) == [k \in 1..Len(items) |-> items[k].p \div 1000]
      beliefs == IF -1 \in DOMAIN m.q THEN m.q[-1] ELSE <<>>
      RECURSIVE GoalSum(_)
      GoalSum(S) == IF S = {} THEN 0 ELSE LET g == CHOOSE x \in S : TRUE IN m.q[g[1]][g[2]].p \div 1000 + GoalSum(S \ {g})
  IN /\ Len(out) = 17 /\ out[1].s = "//*stats" /\ out[17].s = "//*done" /\ out[2].s = "Statistics" /\ out[3].s = "----------"
     /\ Is1(4, "countConceptsMatchedTotal:\t") /\ Is1(5, "countConceptsMatchedMax:\t") /\ Is1(6, "countConceptsMatchedAverage:\t")
     /\ V(5) <= V(4) /\ V(6) = V(4) \div now
     /\ Is1(7, "currentTime:\t\t\t") /\ V(7) = now
     /\ Is1(8, "total concepts:\t\t\t") /\ V(8) = Cardinality(DOMAIN m.con)
     /\ Is1(9, "current average concept priority:\t") /\ Average(V(9), SumOver(DOMAIN m.use, m.use, "p"), caps.concepts)
     /\ Is1(10, "current average concept usefulness:\t") /\ Average(V(10), SumOver(DOMAIN m.use, m.use, "u"), caps.concepts)
     /\ Is1(11, "current belief events cnt:\t\t") /\ V(11) = Len(beliefs)
     /\ Is1(12, "current goal events cnt:\t\t") /\ V(12) = Cardinality(goals)
     /\ Is1(13, "current average belief event priority:\t") /\ Average(V(13), Sum(Prios(beliefs)), caps.beliefs)
     /\ Is1(14, "current average goal event priority:\t") /\ Average(V(14), GoalSum(goals), caps.goals)
     /\ Is1(15, "Maximum chain length in concept hashtable: ") /\ Is1(16, "Maximum chain length in atoms hashtable: ")
     /\ V(15) <= V(8) /\ (V(8) > 0 => V(15) >= 1)
=============================================================================
