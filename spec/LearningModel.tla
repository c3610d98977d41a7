---------------------------- MODULE LearningModel --------------------------
(* Experiences of events a, b and operations ^op at all distances in time:   *)
(* what is learned is exactly what the history supports.                     *)
EXTENDS Learning
CONSTANTS Steps, Gaps
VARIABLES now, hist, spk, sel, links, n
vars == <<now, hist, spk, sel, links, n>>
NoNums == [x \in {} |-> 0]
Names == { <<"a">>, <<"b">>, <<"^left">> }
ModelPairs == { <<Seq2, x, y>> : x \in {<<"a">>, <<"b">>}, y \in {<<"a">>, <<"b">>} }
Known == Names \cup ModelPairs
Init == now = 0 /\ hist = <<>> /\ spk = [t \in Known |-> NoEvent] /\ sel = [t \in Known |-> 0] /\ links = {} /\ n = 0
Link(a, b) == [t |-> <<TImp, a.t, b.t>>, dt |-> b.o - a.o, at |-> b.o]
NewLinks(p) ==
  UNION { { Link(q[1], q[2]) : q \in { x \in Pairs(spk[c], p) : Learned(x[1], x[2], Known) # <<>> } }
          : c \in { d \in Known : RelatesTo(spk[d], sel[d], p, now) /\ Must(Joined(spk[d], p)) } }
  \cup { Link(Act2(spk[w[1]], spk[w[2]]), p) : w \in { x \in Known \X Known :
           CausesByOperation(spk[x[1]], sel[x[1]], x[1], spk[x[2]], sel[x[2]], x[2], p, now) /\ Must(Joined(spk[x[1]], spk[x[2]]))
           /\ Learned(Act2(spk[x[1]], spk[x[2]]), p, Known) # <<>> } }
NewSeqs(p) == { Joined(spk[c], p) : c \in { d \in Known : RelatesTo(spk[d], sel[d], p, now) /\ MakesSequence(spk[d], p) /\ <<Seq2, spk[d].t, p.t>> \in Known } }
Remember(t, s, p) == IF t = p.t THEN p ELSE IF \E q \in s : q.t = t /\ q.o > spk[t].o THEN [(CHOOSE q \in s : q.t = t) EXCEPT !.ct = now] ELSE spk[t]
Experience(t, g) ==
  /\ n < Steps /\ n' = n + 1
  /\ now' = now + g
  /\ hist' = Append(hist, [t |-> t, o |-> now + g])
  /\ spk' = [spk EXCEPT ![t] = [NoEvent EXCEPT !.t = t, !.ty = "b", !.f = One, !.c = 90000000, !.st = <<n + 1>>, !.o = now + g, !.ct = now + g]]
  /\ sel' = [sel EXCEPT ![t] = now + g]
  /\ links' = links
\* the event just experienced is processed
Process ==
  /\ hist # <<>> /\ \E p \in {spk[hist[Len(hist)].t]} :
       /\ links' = links \cup NewLinks(p)
       /\ spk' = [t \in Known |-> Remember(t, NewSeqs(p), p)]
       /\ sel' = [t \in Known |-> IF t = p.t \/ \E q \in NewSeqs(p) : q.t = t THEN now ELSE sel[t]]
  /\ UNCHANGED <<hist, n>>
  /\ now' = now + 1
VARIABLE phase
Next == \/ phase = "in" /\ phase' = "go" /\ \E t \in Names, g \in Gaps : Experience(t, g)
        \/ phase = "go" /\ phase' = "in" /\ Process
Spec == Init /\ phase = "in" /\ [][Next]_<<vars, phase>>

\* ---- what the history says
RECURSIVE Elements(_)
Elements(t) == IF Is(t, Seq2) THEN Elements(t[2]) \o Elements(t[3]) ELSE <<t>>
Happened(s, at) == \A i \in 1..Len(s) : hist[at[i]].t = s[i]
Supported(k) ==
  LET all == Elements(L(k.t)) \o Elements(R(k.t))
      m == Len(Elements(L(k.t)))
  IN \E at \in [1..Len(all) -> 1..Len(hist)] :
       /\ Happened(all, at)
       /\ \A i, j \in 1..Len(all) : i < j => at[i] # at[j]
       /\ \A i \in 1..Len(all)-1 : hist[at[i]].o <= hist[at[i+1]].o
       /\ \A i \in 1..m : hist[at[Len(all)]].o - hist[at[i]].o <= 2*Distance
       /\ hist[at[Len(all)]].o = k.at
       \* operations lie strictly between, and the offset counts from the last element of the antecedent
       /\ \A i \in 2..m : IsOperation(all[i]) => hist[at[i-1]].o < hist[at[i]].o /\ hist[at[i]].o < hist[at[i+1]].o
       /\ k.dt = hist[at[Len(all)]].o - hist[at[m]].o
Sound == \A k \in links : Supported(k) /\ k.dt >= 0 /\ k.dt <= Distance
LastOf(t, i) == { j \in 1..i : hist[j].t = t /\ \A m \in j+1..i : hist[m].t # t }
Complete == phase = "in" /\ hist # <<>> =>
  LET i == Len(hist) y == hist[i] IN
  IsOperation(y.t) \/
  \A x \in {<<"a">>, <<"b">>} \ {y.t} : \A j \in LastOf(x, i) :
    /\ y.o - hist[j].o <= Distance => [t |-> <<TImp, x, y.t>>, dt |-> y.o - hist[j].o, at |-> y.o] \in links
    /\ \A o \in LastOf(<<"^left">>, i) : hist[j].o < hist[o].o /\ hist[o].o < y.o /\ y.o - hist[j].o < Distance =>
         [t |-> <<TImp, <<Seq2, x, <<"^left">>>>, y.t>>, dt |-> y.o - hist[o].o, at |-> y.o] \in links
NoOperationLearned == \A k \in links : OpAtom(R(k.t)) = "-"
=============================================================================
