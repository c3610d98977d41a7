---------------------------- MODULE GrammarTrace ---------------------------
(* What the real parser and printer made of texts (C07).                     *)
EXTENDS Grammar, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Close(a, b) == a - b <= 2 /\ b - a <= 2
Around(a, b) == a - b <= 1 /\ b - a <= 1
Init == l = 1
Written2(t) == /\ E.t = t /\ E.shown = Show(t) /\ E.back = t
Ok == CASE E.op = "t" -> \E t \in {Term(E.text)} : Written2(t)
        [] E.op = "s" -> \E z \in {Sentence(E.text)} : \E t \in {Term(z.text)} :
                           /\ Written2(t) /\ E.mark = z.mark /\ E.tense = z.tense /\ Close(E.f, z.f) /\ Close(E.c, z.c) /\ Around(E.dt, z.dt)
        [] E.op = "e" -> \E a \in {Term(E.a)} : \E b \in {Term(E.b)} : (E.eq = (a = b)) /\ (a = b => E.hash)
        [] E.op = "h" -> E.eq = <<0, 0>> /\ E.same = <<1, 1>>     \* different terms of one hash, and identical ones
        [] E.op = "x" -> IF Fitting0(Raw(E.text)) THEN E.code = 0 ELSE E.code = 1 /\ E.told    \* refused, with a message
Next == l <= Len(Trace) /\ l' = l + 1 /\ Ok = TRUE
Spec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
