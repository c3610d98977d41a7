----------------------------- MODULE GoalsModel ----------------------------
(* A sequence goal of three elements (the first two may share a variable)    *)
(* and all situations of concepts with and without events.  Checked: what    *)
(* the goal leads to is the first element that is not yet fulfilled in order.*)
EXTENDS Goals
CONSTANT MaxT
VARIABLES g, spk, step
NoNums == [x \in {} |-> 0]
A == <<"a">>
P(x) == <<Inh, <<x>>, <<"p">>>>
Q(x) == <<Inh, <<x>>, <<"q">>>>
Terms3 == { <<Seq2, <<Seq2, P("#1"), A>>, Q("#1")>>, <<Seq2, <<Seq2, A, A>>, P("x")>>, <<Seq2, <<Seq2, P("#1"), Q("#2")>>, P("#2")>> }
Con == <<A, P("x"), P("y"), Q("x"), Q("y")>>
Event(t, f, o) == [NoEvent EXCEPT !.t = t, !.ty = "b", !.f = f, !.c = 90000000, !.st = <<o + 10>>, !.o = o]
Now == MaxT
Strong == One
Weak == 0
Init == /\ g \in { [Event(t, One, Now) EXCEPT !.ty = "g", !.st = <<1>>] : t \in Terms3 }
        /\ \E has \in SUBSET (1..Len(Con)) : spk \in [has -> {Strong, Weak} \X (0..MaxT)]
        /\ step = 0
Next == step = 0 /\ step' = 1 /\ UNCHANGED <<g, spk>>
Spec == Init /\ [][Next]_<<g, spk, step>>
Spikes == [i \in DOMAIN spk |-> Event(Con[i], spk[i][1], spk[i][2])]
Out == Decompose(g, Con, Spikes, Now)
\* ways to fulfil the first k elements: sequences of concepts with events in order that agree in the variables
Ways(k) == { w \in [1..k -> DOMAIN spk] :
  /\ \A i \in 1..k : spk[w[i]][1] = Strong
  /\ \A i \in 1..k-1 : spk[w[i]][2] <= spk[w[i+1]][2]
  /\ \E m \in [{"#1", "#2"} -> {<<"x">>, <<"y">>}] : \A i \in 1..k : Subst(Elements(g.t)[i], m) = Con[w[i]] }
\* (in the choice of the event for an element, the strongest one is taken: only without choice this is exact)
InOrder == step = 1 =>
  /\ Out # {}
  /\ \A r \in Out : IF r.done THEN Ways(3) # {}
                    ELSE \E k \in 0..2 : /\ Match(Elements(g.t)[k+1], r.t).ok
                                         /\ IF k = 0 THEN r.e.st = <<1>> ELSE Ways(k) # {} /\ Len(r.e.st) = k + 1
First == step = 1 => (Ways(1) = {} <=> \E r \in Out : ~r.done /\ r.e.st = <<1>>)
=============================================================================
