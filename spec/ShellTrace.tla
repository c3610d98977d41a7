------------------------------ MODULE ShellTrace ---------------------------
(* The shell's lines in recorded runs (C21): of which kind each is, what it  *)
(* does to the settings, and what it prints.                                 *)
EXTENDS Rec, Shell
X == INSTANCE Text
C == INSTANCE Clock
S == INSTANCE Reset
CONSTANTS ConceptsMax, BeliefsMax, GoalsMax, OpsMax
VARIABLES set,      \* settings
          mem,      \* the memory
          cnt       \* cycles and inputs of the line (not in sections within)
tvars == <<l, stack, set, mem, cnt>>
None == [i \in {} |-> 0]
NoMem == [con |-> None, b |-> None, lnk |-> None, use |-> None, q |-> None]
NoSet == [volume |-> -1]
NoUse == [n |-> 0, l |-> 0, u |-> 0, p |-> 0]
Without(f, i) == [j \in DOMAIN f \ {i} |-> f[j]]
RECURSIVE Fold(_, _)
Fold(chs, s) ==
  IF chs = <<>> THEN s
  ELSE LET h == Head(chs) IN Fold(Tail(chs),
    CASE h.k = "con-" -> [s EXCEPT !.con = Without(@, h.id), !.b = Without(@, h.id), !.lnk = Without(@, h.id), !.use = Without(@, h.id)]
      [] h.k = "con+" -> [s EXCEPT !.con = (h.id :> h.t) @@ @, !.b = (h.id :> NoEvent) @@ @, !.lnk = (h.id :> None) @@ @, !.use = (h.id :> NoUse) @@ @]
      [] h.k = "slot" /\ h.s = "b" -> [s EXCEPT !.b[h.id] = h.e]
      [] h.k = "link" -> [s EXCEPT !.lnk[h.id] = (h.op :> h.tab) @@ @]
      [] h.k = "use" -> [s EXCEPT !.use[h.id] = [n |-> h.n, l |-> h.l, u |-> h.u, p |-> h.p]]
      [] h.k = "q" -> [s EXCEPT !.q = (h.l :> h.items) @@ @]
      [] OTHER -> s)
S0 == X!Trim(Top.line)
Kind0 == X!Kind(Top.line)
Cmd == IF Kind0 = "command" THEN X!Command(S0) ELSE ""
Arg == IF "arg" \in DOMAIN Top THEN Top.arg ELSE NoTerm
NewSet == IF "set" \in DOMAIN E THEN E.set ELSE set
Out == E.out
Empty(out) == out = <<>>
RECURSIVE Goals2(_, _)
Goals2(q, y) == IF y > GoalsMax THEN <<>> ELSE (IF y \in DOMAIN q THEN q[y] ELSE <<>>) \o Goals2(q, y + 1)
\* ---- what is printed
Has(s, p) == \E i \in 1..Len(s) : X!Prefix(p, X!From(s, i))
Loud(o) ==   \* derivations are printed only above the volume
  LET told == IF X!Prefix("Derived: ", o.s) THEN X!After("Derived: ", o.s) ELSE IF X!Prefix("Revised: ", o.s) THEN X!After("Revised: ", o.s) ELSE IF X!Prefix("Selected: ", o.s) THEN X!After("Selected: ", o.s) ELSE ""
      at == 1 + (IF X!Prefix("dt=#", told) THEN 1 ELSE 0) + (IF Has(told, " occurrenceTime=#") THEN 1 ELSE 0)
  IN told # "" => o.v[at] > set.volume - 100 /\ (set.volume < One \/ X!Prefix("Revised", o.s))
PrintOk ==
  CASE Kind0 = "comment" -> E.raw = "Comment: " \o X!From(S0, 3) \o "\n"
    [] Kind0 = "number" -> /\ Len(Out) >= 2 /\ \A i \in 2..Len(Out)-1 : Loud(Out[i])
                           /\ Out[1] = Line("performing # inference steps:", <<X!Nat10(S0)>>)
                           /\ Out[Len(Out)] = Line("done with # additional inference steps.", <<X!Nat10(S0)>>)
    [] Kind0 \in {"empty", "sentence"} -> \A i \in 1..Len(Out) : Loud(Out[i])
    [] Kind0 = "question" \/ Cmd = "*query " -> TRUE        \* (see Questions)
    [] Cmd = "*concepts" -> ConceptsOk(Out, mem, OpsMax)
    [] Cmd = "*cycling_belief_events" -> QueueOk(Out, IF -1 \in DOMAIN mem.q THEN mem.q[-1] ELSE <<>>, "//*cycling_belief_events", " ")
    [] Cmd = "*cycling_goal_events" -> QueueOk(Out, Goals2(mem.q, 0), "//*cycling_goal_events", "")
    [] Cmd = "*inverted_atom_index" -> IndexOk(Out, mem)
    [] Cmd = "*opconfig" -> OpConfigOk(Out, set)
    [] Cmd = "*stats" -> StatsOk(Out, mem, Top.now, [concepts |-> ConceptsMax, beliefs |-> BeliefsMax, goals |-> GoalsMax])
    [] OTHER -> Empty(Out)
Code == CASE Cmd = "*reset" -> 1 [] Cmd = "quit" -> 2 [] OTHER -> 0
BaseOk == CASE Cmd = "*stampid=" -> E.base = X!IntOf(X!After(Cmd, S0))
            [] Kind0 = "command" \/ Kind0 \in {"comment", "question"} -> E.base = Top.base
            [] OTHER -> TRUE
TimeOk == CASE Cmd = "*currenttime=" -> E.now = X!IntOf(X!After(Cmd, S0))
            [] Cmd = "*concurrent" -> E.now = C!Back(Top.now)
            [] Kind0 \in {"command", "comment", "question"} -> E.now = Top.now
            [] Kind0 = "empty" -> E.now = Top.now + 1
            [] OTHER -> TRUE
\* the settings at the first start
Defaults(x) == /\ x.volume = 0 /\ x.decision = 50100000 /\ x.anticipation = 1000000 /\ x.similarity = H /\ x.babbling = 20000000 /\ x.priming = 10000000
               /\ x.other = <<1, 1, 50100000, 50100000, H, Decay>>
LineOk ==
  /\ cnt.cyc = (CASE Kind0 = "empty" -> 1 [] Kind0 = "number" -> X!Nat10(S0) [] OTHER -> 0)
  /\ cnt.inp = (IF Kind0 = "sentence" THEN 1 ELSE 0)
  /\ E.r = Code /\ BaseOk /\ TimeOk /\ PrintOk
  /\ IF set = NoSet THEN "set" \in DOMAIN E /\ (Kind0 # "command" => S!Started(E.set, S!Names) /\ Defaults(E.set))
     ELSE IF Kind0 = "command" THEN SetOk(set, NewSet, Cmd, S0, Arg)
     ELSE /\ [NewSet EXCEPT !.import = <<>>] = [set EXCEPT !.import = <<>>]
          /\ Kind0 # "sentence" => NewSet.import = set.import \/ cnt.cyc > 0
  /\ Kind0 = "command" /\ Cmd # "*query " => E.ch = <<>>
  /\ Kind0 = "comment" => E.ch = <<>>
ResetOk == /\ E.ch = <<>> /\ E.now = 1 /\ E.base = 1
           /\ "set" \in DOMAIN E => S!Started(E.set, S!Names) /\ (set # NoSet => \A k \in S!Kept : E.set[k] = set[k])
TraceInit == l = 1 /\ stack = <<>> /\ set = NoSet /\ mem = NoMem /\ cnt = [cyc |-> 0, inp |-> 0]
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1 /\ WellNested /\ stack' = StackAfter
  /\ cnt' = (CASE E.k = "Line" /\ E.ph = "b" -> [cyc |-> 0, inp |-> 0]
               [] E.ph = "b" /\ Len(stack) = 1 -> [cyc |-> cnt.cyc + (IF E.k = "Cycle" THEN 1 ELSE 0), inp |-> cnt.inp + (IF E.k = "Input" THEN 1 ELSE 0)]
               [] OTHER -> cnt)
  /\ IF E.k = "Reset" THEN mem' = NoMem /\ ResetOk = TRUE /\ set' = IF "set" \in DOMAIN E THEN E.set ELSE NoSet
     ELSE /\ (E.k = "Line" /\ E.ph = "e" => LineOk) = TRUE
          /\ (E.k = "Line" /\ E.ph = "b" => E.ch = <<>>) = TRUE
          /\ \E f \in {Fold(E.ch, mem)} : mem' = f
          /\ set' = NewSet
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
