--------------------------- MODULE DecisionModel ---------------------------
(* All situations of two goals, events, and links with two operations, one   *)
(* of them general, of which a special case may be known to fail.            *)
EXTENDS Decision
VARIABLES spk, gsp, lnk, g, best, step
NoNums == [x \in {} |-> 0]
Leftw == <<"^left">>
Rightw == <<"^right">>
Is(x, y) == <<Inh, <<x>>, <<y>>>>
B == <<"b">>
Con == <<Is("x", "p"), Is("x", "q"), Is("x", "s"), B, Is("$1", "q"), Is("$1", "p")>>
Event(t, f, o) == [NoEvent EXCEPT !.t = t, !.ty = "b", !.f = f, !.c = 90000000, !.st = <<o>>, !.o = 5]
Goal(t, f, o) == [Event(t, f, o) EXCEPT !.ty = "g"]
Link(a, op, b, f, n, src) == [t |-> <<TImp, <<Seq2, a, op>>, b>>, f |-> f, c |-> 60000000, st |-> <<n>>, src |-> src]
Now == 5
Truths == {0, One}
Opt(S) == {<<>>} \cup { <<s>> : s \in S }
Init ==
  /\ \E a \in {0, 70000000, One}, b \in Truths : \E has \in SUBSET {1, 4} :
       spk = [i \in has |-> IF i = 1 THEN Event(Con[1], a, 11) ELSE Event(Con[4], b, 12)]
  /\ \E p \in Truths \cup {-1} : \E q \in {One} :
       gsp = [i \in (IF p < 0 THEN {2} ELSE {2, 3}) |-> IF i = 2 THEN Goal(Con[2], q, 13) ELSE Goal(Con[3], p, 14)]
  /\ \E gen \in Opt({ Link(Con[6], Leftw, Con[5], f, 15, 6) : f \in Truths }),
        spe \in Opt({ Link(Con[1], Leftw, Con[2], f, 16, 1) : f \in Truths }),
        alt \in Opt({ Link(B, Rightw, Con[2], f, 17, 4) : f \in Truths }),
        bad \in Opt({ Link(Con[1], Leftw, Con[3], f, 18, 1) : f \in Truths }) :
       lnk = [c \in {2, 3, 5} |-> CASE c = 5 -> [o \in {1} |-> gen] [] c = 2 -> [o \in {1, 2} |-> IF o = 1 THEN spe ELSE alt] [] c = 3 -> [o \in {1} |-> bad]]
  /\ g = 2 /\ best = NoDecision /\ step = 0
\* the goal reaches the concept it is about and the general one
Next == /\ step = 0 /\ step' = 1
        /\ \E d1 \in Decisions(Con, spk, gsp, lnk, 2, gsp[g], 2, Now), d2 \in Decisions(Con, spk, gsp, lnk, 2, gsp[g], 5, Now) :
             best' \in UNION { Better(x, d2) : x \in Better(NoDecision, d1) }
        /\ UNCHANGED <<spk, gsp, lnk, g>>
Spec == Init /\ [][Next]_<<spk, gsp, lnk, g, best, step>>
All(c) == Tables(lnk, c, 1) \cup Tables(lnk, c, 2)
Reason == best.run =>
  /\ best.desire >= Threshold /\ best.by[2] \in All(2) \cup All(5) /\ best.by[3] \in DOMAIN spk
  /\ WithoutOp(best.t[2]) = Con[best.by[3]] /\ LastOperation(best.t[2]) = <<Leftw, Rightw>>[best.op]
\* a general link is not used where the special case is known to fail
Refuted == best.run /\ HasVar(best.by[2].t) => \A i \in All(2) : i.t = best.t => i.f > 0
\* nothing is done that only brings about what is to be avoided, or prevents what is wanted
Harm == best.run => \E c \in DOMAIN gsp, i \in All(2) \cup All(3) \cup All(5) : LastOperation(i.t[2]) = <<Leftw, Rightw>>[best.op] /\ (gsp[c].f = One <=> i.f = One)
\* an applicable sure link that nothing speaks against is acted on
Acts == step = 1 /\ 1 \in DOMAIN spk /\ spk[1].f = One /\ (\A c \in {2, 3, 5}, i \in All(2) \cup All(3) \cup All(5) : i.f = One) /\ (3 \in DOMAIN gsp => gsp[3].f = One)
        /\ (All(2) \cup All(5)) \cap { i \in All(2) \cup All(5) : LastOperation(i.t[2]) = Leftw } # {} => best.run
=============================================================================
