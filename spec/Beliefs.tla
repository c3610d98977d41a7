------------------------------ MODULE Beliefs ------------------------------
(* The beliefs of one concept (C02): its time-independent belief b, its      *)
(* current belief s, its predicted belief p, and its goal g.  A new belief   *)
(* event updates s or p by its time and always b; a processed event becomes  *)
(* current if it is newer.                                                   *)
EXTENDS Events
Slots == [b : {}, s : {}, p : {}, g : {}]
NoBeliefs == [b |-> NoEvent, s |-> NoEvent, p |-> NoEvent, g |-> NoEvent]

IsTImp(t) == IsOp(t, TImp)
\* the event that slot x of its concept is updated with when belief event e arrives at time now
Feeds(x, e, now) == CASE x = "s" -> e.o # Eternal /\ e.o <= now
                      [] x = "p" -> e.o # Eternal /\ e.o > now
                      [] x = "b" -> TRUE
                      [] OTHER   -> FALSE
Incoming(x, e) == IF x = "b" THEN Eternalized(e) ELSE e
AfterBelief(x, old, e) == RevisionAndChoice(old, Incoming(x, e))
\* an event processed as sensorimotor event
Newer(old, e) == old.ty = "-" \/ e.o > old.o

\* ---------------------------------------------------------------- exhaustive model: one concept
CONSTANTS MaxTime, MaxInputs
VARIABLES slots, clock, inputs, seen
vars == <<slots, clock, inputs, seen>>
Fs == {0, One}
Cs == {50000000, 90000000}
ModelEvent(st, f, c, o) == [NoEvent EXCEPT !.t = <<"a">>, !.ty = "b", !.st = st, !.f = f, !.c = c, !.o = o]
Init == slots = NoBeliefs /\ clock = 1 /\ inputs = 0 /\ seen = {}
Deliver(e) == /\ \E nb \in AfterBelief("b", slots.b, e), ns \in AfterBelief("s", slots.s, e), np \in AfterBelief("p", slots.p, e) :
                    slots' = [slots EXCEPT !.b = nb,
                                           !.s = IF Feeds("s", e, clock) THEN ns ELSE slots.s,
                                           !.p = IF Feeds("p", e, clock) THEN np ELSE slots.p]
              /\ clock' = clock + 1
InputBelief == /\ inputs < MaxInputs /\ clock < MaxTime
               /\ \E f \in Fs, c \in Cs, o \in {clock, Eternal} :
                     Deliver(ModelEvent(<<inputs + 1>>, f, c, o))
               /\ inputs' = inputs + 1 /\ seen' = seen \cup {inputs + 1}
Derive == /\ inputs > 0 /\ clock < MaxTime
          /\ \E st \in { <<i>> : i \in 1..inputs } \cup { <<i, j>> : i \in 1..inputs, j \in 1..inputs }, f \in Fs, o \in {clock - 1, clock + 1} :
                NoRepeats(st) /\ o > 0 /\ Deliver(ModelEvent(st, f, 50000000, o))
          /\ UNCHANGED <<inputs, seen>>
Next == InputBelief \/ Derive
Spec == Init /\ [][Next]_vars

TypeOK == \A x \in DOMAIN slots : slots[x].f \in 0..One /\ slots[x].c \in 0..MaxConf
NoDoubleEvidence == \A x \in DOMAIN slots : NoRepeats(slots[x].st) /\ Evidence(slots[x]) \subseteq seen /\ Len(slots[x].st) <= StampSize
TimesFit == (slots.b.ty # "-" => slots.b.o = Eternal) /\ (slots.s.ty # "-" => slots.s.o \in 1..clock)
\* the time-independent belief never loses confidence, and the others not for the same time
Monotone == [][ /\ slots'.b.c >= slots.b.c - 5
                /\ \A x \in {"s", "p"} : slots[x].o = slots'[x].o => slots'[x].c >= slots[x].c - 5 ]_vars
=============================================================================
