------------------------------ MODULE Attention -----------------------------
(* What is queued for processing, with what priority, and in what order it   *)
(* is taken out again (C20).  A queue is a set of items [e |-> event,        *)
(* p |-> priority]; no event is in it twice.                                 *)
EXTENDS Events
CONSTANTS MinConf,       \* least confidence of an event
          Durability,    \* what is left of an event's priority after a cycle
          Fading,        \* what is left of a concept's priority after a cycle
          Layers         \* goal levels 0..Layers-1
PTol == 6                \* error of priorities in fixed point

\* 1 / log2(1 + complexity)
Share == <<100000000, 63092975, 50000000, 43067656, 38685281, 35620719, 33333333, 31546488, 30103000, 28906483, 27894295, 27023815, 26264954,
  25595802, 25000000, 24465054, 23981247, 23540891, 23137821, 22767025, 22424382, 22106473, 21810429, 21533828, 21274605, 21030992, 20801460,
  20584683, 20379505, 20184909, 20000000, 19823986, 19656163, 19495902, 19342640, 19195872, 19055141, 18920036, 18790182, 18665241, 18544902,
  18428883, 18316925, 18208790, 18104260, 18003133, 17905223, 17810359, 17718382, 17629143, 17542506, 17458343, 17376534, 17296969, 17219543,
  17144160, 17070728, 16999162, 16929381, 16861310, 16794878, 16730018, 16666667, 16604765>>
\* derived events rank lower the more complex they are; input and revised ones do not
Priority(t, pr, exempt) == IF exempt THEN pr ELSE Mul(pr, Share[Complexity(t)])

\* ---- equality of events; Same: certainly, Alike: as far as can be told in fixed point
SameEv(a, b) == Len(a) = Len(b) /\ { a[i] : i \in 1..Len(a) } = { b[i] : i \in 1..Len(b) }
\* (lists that hold a number twice, see the finding about C01, may count as equal when one only contains the other)
MaybeSameEv(a, b) == LET x == { a[i] : i \in 1..Len(a) }  y == { b[i] : i \in 1..Len(b) }
                     IN Len(a) = Len(b) /\ (x = y \/ (Cardinality(x) < Len(a) /\ x \subseteq y) \/ (Cardinality(y) < Len(b) /\ y \subseteq x))
Content(a, b) == a.o = b.o /\ a.t = b.t /\ SameEv(a.st, b.st)
MaybeContent(a, b) == a.o = b.o /\ a.t = b.t /\ MaybeSameEv(a.st, b.st)
Alike(a, b) == a.f = b.f /\ a.c = b.c /\ a.cx = b.cx /\ MaybeContent(a, b)
Same(a, b)  == Alike(a, b) /\ Content(a, b) /\ (a = b \/ a.f \in {0, One} \/ a.c # MaxConf)
\* a's confidence is at most b's / below b's
AtMostC(a, b)    == a.c < b.c \/ (a.c = b.c /\ a.cx = b.cx)
MaybeAtMostC(a, b) == a.c <= b.c
BelowC(a, b)     == a.c < b.c
MaybeBelowC(a, b) == a.c < b.c \/ (a.c = b.c /\ a.cx # b.cx)

\* ---- what is not queued.  b, s, g: the concept's belief, latest belief event and goal (NoEvent if there are none)
Repeats(e, items)  == \E i \in items : Same(e, i.e)
MayRepeat(e, items) == \E i \in items : Alike(e, i.e)
Known(e, b, s, g) ==
  IF e.ty = "g" THEN g.ty # "-" /\ Same(e, g)
  ELSE IF e.o = Eternal THEN b.ty # "-" /\ (Same(e, b) \/ BelowC(e, b))
  ELSE s.ty # "-" /\ Content(e, s) /\ AtMostC(e, s)
MayBeKnown(e, b, s, g) ==
  IF e.ty = "g" THEN g.ty # "-" /\ Alike(e, g)
  ELSE IF e.o = Eternal THEN b.ty # "-" /\ (Alike(e, b) \/ MaybeBelowC(e, b))
  ELSE s.ty # "-" /\ MaybeContent(e, s) /\ MaybeAtMostC(e, s)
\* comparisons of measurements are no events to process
Comparison2(t) == IsOp(t, Prop) /\ t[3][1] \in {Sim, Seq2}
Queueable(e) == IF e.ty = "g" THEN TRUE ELSE ~IsOp(e.t, TImp) /\ ~Comparison2(e.t)
Accepted(e, p)   == e.c >= MinConf - 1 /\ p >= 0
MustAccept(e, p) == e.c > MinConf /\ p > 0

\* the queue an event enters: -1 for beliefs; goals derived from another go to the next level, the last one collects the rest
Level(e, layer) == IF e.ty = "b" THEN -1 ELSE Min2(Layers - 1, layer + 1)

Prios(items) == { i.p : i \in items }
MinP(items) == CHOOSE p \in Prios(items) : \A r \in Prios(items) : p <= r
MaxP(items) == CHOOSE p \in Prios(items) : \A r \in Prios(items) : p >= r
\* what may become of a queue that an item is added to
Pushed(items, i, cap) ==
  IF Cardinality(items) < cap THEN {items \cup {i}}
  ELSE LET m == MinP(items)
       IN (IF i.p < m + PTol THEN {items} ELSE {})
          \cup (IF i.p > m - PTol THEN { (items \ {x}) \cup {i} : x \in { y \in items : y.p <= m + PTol } } ELSE {})
\* what may become of the queues qs when event e, of priority pr, comes up for processing
Queued(qs, e, pr, layer, cap, rep, mayRep, known, mayKnown) ==
  LET l == Level(e, layer)
      may == Queueable(e) /\ Accepted(e, pr) /\ ~rep /\ ~known
      must == Queueable(e) /\ MustAccept(e, pr) /\ ~mayRep /\ ~mayKnown
  IN (IF may THEN { [qs EXCEPT ![l] = n] : n \in Pushed(qs[l], [e |-> e, p |-> pr], cap) } ELSE {})
     \cup (IF must THEN {} ELSE {qs})
\* the best item leaves
Best(items) == { i \in items : i.p >= MaxP(items) - PTol }
Faded(p) == Mul(p, Durability)
=============================================================================
