-------------------------------- MODULE Rec --------------------------------
(* Recorded runs of the whole system: one line per entered ("b") or left     *)
(* ("e") section or reached point ("p") of the code; the stack holds the     *)
(* sections entered and not yet left.                                        *)
EXTENDS Events, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, stack
E == Trace[l]
NoFrame == [k |-> "-", ph |-> "-", id |-> 0]
Top == IF stack = <<>> THEN NoFrame ELSE stack[Len(stack)]
Parent == Top
Pop(s) == SubSeq(s, 1, Len(s) - 1)
\* the stack after line E (begin lines themselves are the frames)
StackAfter == IF E.k = "Reset" THEN <<>>
              ELSE CASE E.ph = "b" -> Append(stack, E)
                     [] E.ph = "e" -> Pop(stack)
                     [] OTHER -> stack
WellNested == E.k # "Reset" => (E.ph = "e" => stack # <<>> /\ Top.id = E.id)
Inside(k) == \E i \in 1..Len(stack) : stack[i].k = k
\* innermost open frame of kind k
Frame(k) == stack[CHOOSE i \in 1..Len(stack) : stack[i].k = k /\ \A j \in i+1..Len(stack) : stack[j].k # k]
Range(f) == { f[x] : x \in DOMAIN f }
\* reports a behaviour that is a listed finding rather than a rejection
Finding(text) == PrintT("VERIF " \o ToJson([finding |-> text]))
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
