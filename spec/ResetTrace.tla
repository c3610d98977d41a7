------------------------------ MODULE ResetTrace ---------------------------
(* Two recorded runs side by side (C16).  Lines "a": the one system's        *)
(* history, ending with a reset; "b": the settings given to a newly started  *)
(* one; "pair": what each then does on the same line; "text": what the       *)
(* shell program printed in both.                                            *)
EXTENDS Reset, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, sa, sb      \* the settings of the two
tvars == <<l, sa, sb>>
E == Trace[l]
NoSet == [volume |-> -1]
Setting(e, s) == IF "set" \in DOMAIN e THEN e.set ELSE s
Own == {"id"}            \* numbers of the recording itself
Told(e) == ToString([f \in DOMAIN e \ Own |-> e[f]])
Same(x, y) == DOMAIN x = DOMAIN y /\ Told(x) = Told(y)
Fresh(e) == e.now = Start.now /\ e.base = Start.base /\ e.ch = <<>>
ResetOk == LET s == Setting(E.e, NoSet) IN
           /\ Fresh(E.e) /\ "set" \in DOMAIN E.e
           /\ Started(s, Names)
           /\ sa # NoSet => ToString(Staying(s)) = ToString(Staying(sa))
Ok == CASE E.m = "a" /\ E.e.k = "Reset" -> ResetOk
        [] E.m = "b" -> Fresh(E.e)
        [] E.m = "pair" -> ToString(sa) = ToString(sb) /\ Same(E.a, E.b)
        [] E.m = "text" -> E.a = E.b
        [] OTHER -> TRUE
Init == l = 1 /\ sa = NoSet /\ sb = NoSet
Next == /\ l <= Len(Trace) /\ l' = l + 1 /\ Ok = TRUE
        /\ sa' = CASE E.m = "new" -> NoSet [] E.m = "a" -> Setting(E.e, sa) [] E.m = "pair" -> Setting(E.a, sa) [] OTHER -> sa
        /\ sb' = CASE E.m = "new" -> NoSet [] E.m = "b" -> Setting(E.e, sb) [] E.m = "pair" -> Setting(E.b, sb) [] OTHER -> sb
Spec == Init /\ [][Next]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
