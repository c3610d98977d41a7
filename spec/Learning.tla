------------------------------ MODULE Learning -----------------------------
(* Temporal learning (C11): the implications and sequences that an event     *)
(* which is being processed forms with the remembered latest events of the   *)
(* recently active concepts.                                                 *)
EXTENDS Events, Conclusions
CONSTANTS Distance,   \* maximal distance in time of events that are related
          Longest,    \* maximal length of a sequence
          LeastConf   \* least confidence of an event
ThTol == 700          \* (error of confidences in fixed point)
Declarative(t) == Is(t, Imp) \/ Is(t, Equ)
Within(a, b) == Abs(a - b) <= Distance
Closer(a, b) == Abs(a - b) < Distance
Earlier(a, b, now) == a.ty = "b" /\ a.o < b.o /\ a.ct < now
\* a then b
Joined(a, b) == LET v == Intersection(Project(Tv(a), a.o, b.o), Tv(b))
                IN [NoEvent EXCEPT !.t = <<Seq2, a.t, b.t>>, !.ty = "b", !.f = v.f, !.c = v.c, !.st = Stamp(a.st, b.st), !.o = b.o]
\* b because of a
InducedTruth(a, b) == Induction(Tv(b), Project(Tv(a), a.o, b.o))
Induced(a, b) == LET v == InducedTruth(a, b)
                 IN [NoEvent EXCEPT !.t = <<TImp, a.t, b.t>>, !.ty = "b", !.f = v.f, !.c = v.c, !.st = Stamp(a.st, b.st), !.dt = 1000*(b.o - a.o)]
\* enough confidence: maybe / certainly
Might(e) == e.c >= LeastConf - ThTol
Must(e)  == e.c > LeastConf + ThTol
RECURSIVE Depth2(_)
Depth2(t) == IF Is(t, Seq2) THEN 1 + Depth2(L(t)) ELSE 0
RECURSIVE Operations(_)
Operations(t) == IF Is(t, Seq2) THEN Operations(L(t)) \o Operations(R(t)) ELSE IF IsOperation(t) THEN <<t>> ELSE <<>>
RECURSIVE Then(_, _)
Then(t, s) == IF s = <<>> THEN t ELSE Then(<<Seq2, t, Head(s)>>, Tail(s))

\* the remembered event s relates to p, which is being processed; at: when the concept of s was last active
RelatesTo(s, at, p, now) == /\ s.ty = "b" /\ s.ct <= now /\ s.o <= p.o
                            /\ Within(s.o, p.o) /\ Within(at, p.o)
                            /\ ~Declarative(s.t) /\ Disjoint(s.st, p.st)
                            /\ OpAtom(s.t) = "-" /\ OpAtom(p.t) = "-"
                            /\ Fits(<<Seq2, s.t, p.t>>)
\* pairs <<cause, effect>> that an implication is learned from
Pairs(s, p) == {<<s, p>>} \cup (IF s.o = p.o THEN {<<p, s>>} ELSE {})
MakesSequence(s, p) == Depth2(<<Seq2, s.t, p.t>>) < Longest
\* event s, operation so, and then p
CausesByOperation(s, at, u, so, atop, uop, p, now) ==
  /\ OpAtom(p.t) = "-" /\ OpAtom(uop) # "-" /\ OpAtom(u) = "-"
  /\ Earlier(so, p, now) /\ Closer(so.o, p.o) /\ Closer(atop, p.o)
  /\ Earlier(s, so, now) /\ Closer(s.o, p.o) /\ Closer(at, p.o)
  /\ ~Declarative(s.t) /\ Disjoint(s.st, p.st) /\ Disjoint(s.st, so.st)
  /\ Fits(<<Seq2, s.t, so.t>>) /\ Fits(Then(s.t, Operations(so.t)))
Act2(s, so) == [Joined(s, so) EXCEPT !.t = Then(s.t, Operations(so.t))]

\* the implications that a and b lead to, as the sequence of what is added to memory; known: terms of concepts in memory
Learned(a, b, known) ==
  IF a.ty # "b" \/ b.ty # "b" \/ WithoutOp(a.t) \notin known \/ b.t \notin known \/ WithoutOp(a.t) = b.t \/ ~Disjoint(a.st, b.st) \/ ~Fits(<<TImp, a.t, b.t>>)
  THEN <<>>
  ELSE Derived(<<TImp, a.t, b.t>>, TRUE, FALSE)
=============================================================================
