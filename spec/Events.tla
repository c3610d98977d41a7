------------------------------- MODULE Events ------------------------------
(* Events, evidence lists and the revision of beliefs (C01, C02).            *)
EXTENDS Truth, Terms
CONSTANT StampSize
NoEvent == [t |-> NoTerm, ty |-> "-", f |-> 0, c |-> 0, st |-> <<>>, o |-> 0, ct |-> 0, dt |-> 0, cx |-> 0]
Tv(e) == TV(e.f, e.c)
Evidence(e) == { e.st[i] : i \in 1..Len(e.st) }
Disjoint(s, r) == { s[i] : i \in 1..Len(s) } \cap { r[i] : i \in 1..Len(r) } = {}
NoRepeats(s) == Cardinality({ s[i] : i \in 1..Len(s) }) = Len(s)

\* the evidence of a conclusion: alternately from both premises, the first one first, cut at StampSize
RECURSIVE Zip(_, _)
Zip(s, r) == IF s = <<>> THEN r ELSE IF r = <<>> THEN s
             ELSE <<Head(s), Head(r)>> \o Zip(Tail(s), Tail(r))
Cut(s) == IF Len(s) > StampSize THEN SubSeq(s, 1, StampSize) ELSE s
Stamp(s, r) == Cut(Zip(s, r))

\* the same belief: everything but the bookkeeping fields
SameE(a, b) == /\ a.ty = b.ty /\ a.t = b.t /\ a.st = b.st /\ a.o = b.o
               /\ Near(a.f, b.f) /\ Near(a.c, b.c)

DepVarConj(t) == Len(t) > 1 /\ Op(t) \in {Conj, Seq2} /\ HasVarIn(t, DepVars)

Eternalized(e) == IF e.o = Eternal THEN e ELSE [e EXCEPT !.o = Eternal, !.c = W2C(e.c)]

\* (cx tells equal confidences from ones that only look equal in fixed point)
\* what may become of a stored event `old` when `new` arrives (a set: one result, or two when the
\* confidences cannot be told apart in fixed point)
Mergeable(old, new) == /\ Disjoint(old.st, new.st)
                       /\ ~DepVarConj(new.t)
                       /\ old.o = Eternal \/ old.o = new.o
                       /\ old.t = new.t
Merged(old, new) ==
  LET later == Max2(old.o, new.o)
      a == Project(Tv(old), old.o, later)
      b == Project(Tv(new), new.o, later)
      r == Revision(a, b)
  IN [old EXCEPT !.f = r.f, !.c = r.c, !.st = Stamp(old.st, new.st), !.o = later]
RevisionAndChoice(old, new) ==
  IF old.ty = "-" THEN {new}
  ELSE IF Mergeable(old, new) THEN {Merged(old, new)}
  ELSE LET later == Max2(old.o, new.o)
           a == Project(Tv(old), old.o, later)
           b == Project(Tv(new), new.o, later)
           exact == old.o = new.o /\ old.c = new.c /\ old.cx = new.cx   \* a genuine tie, not a rounded one
       IN IF exact THEN {old} ELSE IF Near(a.c, b.c) THEN {old, new} ELSE IF b.c > a.c THEN {new} ELSE {old}
=============================================================================
