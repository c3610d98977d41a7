--------------------------- MODULE AttentionModel ---------------------------
(* Attention on a small system: a few events of different complexity and     *)
(* kind enter queues of two items, are processed one per queue and cycle and *)
(* may then give rise to further ones (C20).                                 *)
EXTENDS Attention
CONSTANTS Cap, Cycles
Ev(t, ty, st, o) == [t |-> t, ty |-> ty, f |-> One, c |-> 90000000, st |-> st, o |-> o, ct |-> 0, dt |-> 0, cx |-> 0]
A == <<"a">>  AB == <<Inh, <<"a">>, <<"b">>>>  I == <<TImp, A, AB>>
Inputs == { Ev(A, "b", <<1>>, 1), Ev(AB, "b", <<1, 2>>, 1), Ev(AB, "b", <<2, 1>>, 1), Ev(A, "g", <<3>>, 1), Ev(AB, "g", <<4>>, 1), Ev(I, "b", <<5>>, Eternal),
            [Ev(A, "b", <<6>>, 1) EXCEPT !.c = 500000] }
VARIABLES qs, known, clock, todo, taken, done
vars == <<qs, known, clock, todo, taken, done>>
Empty == [i \in {} |-> 0]
Levels == -1..Layers-1
Init == qs = [l \in Levels |-> {}] /\ known = {} /\ clock = 0 /\ todo = -2 /\ taken = {} /\ done = {}
KnownEv(e) == \E k \in known : Content(k, e) /\ k.ty = e.ty
RepIn(e) == IF e.ty = "b" THEN Repeats(e, qs[-1]) ELSE \E l \in 0..Layers-1 : Repeats(e, qs[l])
Add(e, pr, layer, exempt) ==
  \E n \in Queued(qs, e, Priority(e.t, pr, exempt), layer, Cap, RepIn(e), RepIn(e), KnownEv(e), KnownEv(e)) :
    /\ qs' = n
    /\ known' = IF e.ty = "b" /\ e.c >= MinConf THEN known \cup {e} ELSE known
\* between cycles input arrives
Input == todo = -2 /\ clock < Cycles /\ \E e \in Inputs : Add(e, One, 0, TRUE) /\ UNCHANGED <<clock, todo, taken, done>>
Take == /\ todo \in Levels
        /\ IF qs[todo] = {} THEN taken' = {} /\ UNCHANGED <<qs, done>>
           ELSE \E i \in Best(qs[todo]) : qs' = [qs EXCEPT ![todo] = @ \ {i}] /\ taken' = {i} /\ done' = done \cup {i.e}
        /\ known' = known \cup { i.e : i \in taken' }
        /\ todo' = todo + 1 /\ UNCHANGED clock
Start == todo = -2 /\ todo' = -1 /\ clock < Cycles /\ UNCHANGED <<qs, known, clock, taken, done>>
\* what was taken leads to derived events, goals on the level below
Derive == /\ todo \in 0..Layers /\ taken # {}
          /\ \E i \in taken, t \in {A, AB} :
               /\ i.e.ty = "g" => t # i.e.t
               /\ Add(Ev(t, i.e.ty, i.e.st, 1), i.p, todo - 1, FALSE)
          /\ taken' = {} /\ UNCHANGED <<clock, todo, done>>
Finish == /\ todo = Layers /\ todo' = -2 /\ clock' = clock + 1 /\ taken' = {}
       /\ qs' = [l \in Levels |-> { [i EXCEPT !.p = Faded(@)] : i \in qs[l] }] /\ UNCHANGED <<known, done>>
Next == Input \/ Start \/ Take \/ Derive \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Finish) /\ WF_vars(Take)

Bounded == \A l \in Levels : Cardinality(qs[l]) <= Cap
Unique  == \A l, k \in Levels : \A i \in qs[l], j \in qs[k] : (i.e.ty = j.e.ty /\ Content(i.e, j.e)) => (i = j /\ l = k)
Sorted  == \A l \in Levels : \A i \in qs[l] : i.e.ty = (IF l = -1 THEN "b" ELSE "g") /\ i.p > 0 /\ i.p <= One /\ i.e.c >= MinConf
NoImplications == \A i \in qs[-1] : ~IsOp(i.e.t, TImp)
\* a belief is processed once: what was taken does not come back
Once == \A i \in qs[-1] : i.e \notin done
InOrder == [][\A l \in Levels : \A i \in qs[l] :
               (~\E j \in qs'[l] : j.e = i.e) => (\A j \in qs[l] : i.p >= j.p - PTol) \/ (Cardinality(qs[l]) = Cap /\ \A j \in qs[l] : i.p <= j.p + PTol)]_vars
\* priorities only fall, and by the same share in every queue
OnlyFade == [][\A l \in Levels : \A i \in qs[l], j \in qs'[l] : i.e = j.e => (j.p = i.p \/ (todo = Layers /\ j.p = Faded(i.p)))]_vars
\* no queue is passed over
Progress == \A l \in Levels : (todo = l) ~> (todo # l)
=============================================================================
