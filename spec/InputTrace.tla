----------------------------- MODULE InputTrace ----------------------------
(* Sentences in recorded whole-system runs (C07): what is entered into the   *)
(* system is what the text says, and it is told as it was entered.           *)
EXTENDS Rec, Questions
G == INSTANCE Grammar
X == INSTANCE Text
VARIABLES said    \* the sentence being entered: its parts and its term, or nothing
tvars == <<l, stack, said>>
NoNums == [x \in {} |-> 0]
Nothing == [z |-> <<>>, t |-> NoTerm]
Kind0 == X!Kind(E.line)
Spoken(k) == k \in {"sentence", "question"}
\* a sentence's line
Heard == IF E.k = "Line" /\ E.ph = "b" /\ Spoken(Kind0)
         THEN LET z == G!Sentence(X!Trim(E.line)) IN [z |-> z, t |-> Reduce(G!Term(z.text))]
         ELSE Nothing
Around(a, b) == a - b <= 1 /\ b - a <= 1
EnteredOk ==
  /\ Top.k = "Line" => /\ X!Kind(Top.line) = "sentence"
                       /\ E.t = said.t
                       /\ Near(E.f, said.z.f) /\ Near(E.c, said.z.c)
                       /\ E.goal = (said.z.mark = "!")
                       /\ E.eternal = (said.z.tense = 0)
                       /\ Around(E.dt, said.z.dt)
Goal == said.z.mark = "!"
Told(now, base) ==    \* as it is told
  LET imp == IsOp(said.t, TImp) IN
  [s |-> "Input: " \o (IF imp THEN "dt=# " ELSE "") \o Show(said.t) \o (IF Goal THEN "! " ELSE ". ") \o (IF said.z.tense = 0 THEN "" ELSE ":|: occurrenceTime=# ")
         \o "Priority=# Stamp=[#] Truth: frequency=#, confidence=#",
   v |-> (IF imp THEN <<IF Abs(said.z.dt) > 20000 THEN 0 ELSE said.z.dt * 100000>> ELSE <<>>) \o (IF said.z.tense = 0 THEN <<>> ELSE <<now>>) \o <<One, base, said.z.f, said.z.c>>]
Inputs(out) == SelectSeq(out, LAMBDA o : X!Prefix("Input: ", o.s))
Same(a, b) == a - b <= 150 /\ b - a <= 150
ToldOk ==
  CASE X!Kind(Top.line) = "sentence" ->
         LET i == Inputs(E.out) IN
         (Len(i) > 0 /\ said.z.c > 1000000) =>
           \E w \in {Told(Top.now, Top.base)} :
             /\ i[1].s = w.s /\ Len(i[1].v) = Len(w.v)
             /\ \A k \in 1..Len(w.v) : IF k = 1 /\ IsOp(said.t, TImp) THEN Abs(said.z.dt) > 20000 \/ Abs(i[1].v[k] - w.v[k]) <= 100000 ELSE IF k = Len(w.v) - 2 THEN i[1].v[k] = w.v[k] ELSE Same(i[1].v[k], w.v[k])
    [] X!Kind(Top.line) = "question" -> E.out[1].s = Asked(said.t, said.z.tense)
    [] OTHER -> TRUE
Ok ==
  CASE E.k = "Input" /\ E.ph = "b" -> EnteredOk
    [] E.k = "Line" /\ E.ph = "e" -> ToldOk
    [] OTHER -> TRUE
TraceInit == l = 1 /\ stack = <<>> /\ said = Nothing
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1 /\ WellNested /\ stack' = StackAfter
  /\ Ok = TRUE
  /\ IF E.k = "Line" /\ E.ph = "b" THEN \E h \in {Heard} : said' = h ELSE UNCHANGED said
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
