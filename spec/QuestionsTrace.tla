---------------------------- MODULE QuestionsTrace --------------------------
(* Questions and queries in recorded whole-system runs (C15).                *)
EXTENDS Rec, Questions
X == INSTANCE Text
VARIABLES mem,      \* the memory
          priming   \* setting: the priority a question gives
tvars == <<l, stack, mem, priming>>
NoNums == [x \in {} |-> 0]
None == [i \in {} |-> 0]
NoMem == [con |-> None, b |-> None, s |-> None, p |-> None, lnk |-> None, use |-> None]
Without(f, i) == [j \in DOMAIN f \ {i} |-> f[j]]
NoUse == [n |-> 0, l |-> 0, u |-> 0, p |-> 0]
RECURSIVE Fold(_, _)
Fold(chs, s) ==
  IF chs = <<>> THEN s
  ELSE LET h == Head(chs) IN Fold(Tail(chs),
    CASE h.k = "con-" -> [con |-> Without(s.con, h.id), b |-> Without(s.b, h.id), s |-> Without(s.s, h.id), p |-> Without(s.p, h.id), lnk |-> Without(s.lnk, h.id), use |-> Without(s.use, h.id)]
      [] h.k = "con+" -> [con |-> (h.id :> h.t) @@ s.con, b |-> (h.id :> NoEvent) @@ s.b, s |-> (h.id :> NoEvent) @@ s.s, p |-> (h.id :> NoEvent) @@ s.p,
                          lnk |-> (h.id :> None) @@ s.lnk, use |-> (h.id :> NoUse) @@ s.use]
      [] h.k = "slot" /\ h.s = "b" -> [s EXCEPT !.b[h.id] = h.e]
      [] h.k = "slot" /\ h.s = "s" -> [s EXCEPT !.s[h.id] = h.e]
      [] h.k = "slot" /\ h.s = "p" -> [s EXCEPT !.p[h.id] = h.e]
      [] h.k = "link" -> [s EXCEPT !.lnk[h.id] = (h.op :> h.tab) @@ @]
      [] h.k = "use" -> [s EXCEPT !.use[h.id] = [n |-> h.n, l |-> h.l, u |-> h.u, p |-> h.p]]
      [] OTHER -> s)
\* the question on a line
IsQuery == X!Prefix("*query ", Top.line)
Asking == E.k = "Line" /\ E.ph = "e" /\ "q" \in DOMAIN Top
Out == E.out
\* only attention changes, and that of the concepts in who
OnlyAttention(f, who) ==
  /\ \A i \in 1..Len(E.ch) : E.ch[i].k = "use"
  /\ "set" \notin DOMAIN E
  /\ E.now = Top.now /\ E.base = Top.base
  /\ IF who = {} THEN f.use = mem.use
     ELSE \E i \in who : f.use = [mem.use EXCEPT ![i] = Primed(@, Top.tense, Top.now, priming)]
AskOk(f) ==
  \E q \in {Reduce(Top.q)} : \E cands \in {Candidates(q, Top.tense, mem, Top.now)} :
    LET answers == SubSeq(Out, 2, Len(Out))
        held == { k \in cands : k.i # -1 }
    IN
    /\ Len(Out) >= 1 /\ Out[1].s = Asked(q, Top.tense)
    /\ IF IsQuery
       THEN /\ Listed(answers, cands, X!Decimal(X!After("*query ", Top.line)))
            /\ OnlyAttention(f, IF priming > 0 THEN { k.i : k \in { x \in held : Best(held, x) } } ELSE {})
       ELSE IF cands = {} THEN Answered(answers, cands) /\ OnlyAttention(f, {})
       ELSE \E k \in cands : /\ AnswersWith(answers, cands, k)
                             /\ \/ OnlyAttention(f, IF k.i # -1 /\ priming > 0 THEN {k.i} ELSE {})
                                \* the same implication was found as a belief as well
                                \/ k.i = -1 /\ held # {} /\ OnlyAttention(f, IF priming > 0 THEN { x.i : x \in held } ELSE {})
TraceInit == l = 1 /\ stack = <<>> /\ mem = NoMem /\ priming = 10000000
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1 /\ WellNested /\ stack' = StackAfter
  /\ priming' = IF "set" \in DOMAIN E THEN E.set.priming ELSE priming
  /\ IF E.k = "Reset" THEN mem' = NoMem
     ELSE \E f \in {Fold(E.ch, mem)} :
            /\ (E.k = "Line" /\ E.ph = "b" => E.ch = <<>>)
            /\ (Asking => AskOk(f)) = TRUE
            /\ mem' = f
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
