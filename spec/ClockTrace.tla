----------------------------- MODULE ClockTrace ----------------------------
(* Time in recorded whole-system runs (C17).                                 *)
EXTENDS Rec, Clock
X == INSTANCE Text
VARIABLES clock,    \* the clock
          cnt,      \* for each section going on: cycles, inputs, input events in it (not in sections within)
          times,    \* times at which events were entered
          goals,    \* times of cycles, which goals that arise in them have
          foretold  \* times that predictions were made for
tvars == <<l, stack, clock, cnt, times, goals, foretold>>
NoNums == [x \in {} |-> 0]
None == [cyc |-> 0, inp |-> 0, ev |-> 0]
Counts == IF cnt = <<>> THEN None ELSE cnt[Len(cnt)]
Bump(c) == [c EXCEPT !.cyc = @ + (IF E.k = "Cycle" /\ E.ph = "b" THEN 1 ELSE 0),
                     !.inp = @ + (IF E.k = "Input" /\ E.ph = "b" THEN 1 ELSE 0),
                     !.ev  = @ + (IF E.k = "AddEvent" /\ E.ph = "b" THEN 1 ELSE 0)]
Has(s, p) == \E i \in 1..Len(s) : X!Prefix(p, X!From(s, i))
Cycle0 == Frame("Cycle").x
\* the time after the line
AfterLine(line) ==
  LET s == X!Trim(line)  c == X!Command(s) IN
  IF X!Kind(line) # "command" THEN clock
  ELSE CASE c = "*currenttime=" -> X!IntOf(X!After(c, s))
         [] c = "*concurrent" -> Back(clock)
         [] OTHER -> clock
LineOk ==
  LET s == X!Trim(Top.line)  k == X!Kind(Top.line) IN
  /\ E.now = AfterLine(Top.line)
  /\ Counts.cyc = (IF k = "sentence" THEN 0 ELSE Cost(k, IF k = "number" THEN X!Nat10(s) ELSE 0))
  /\ Counts.inp = (IF k = "sentence" THEN 1 ELSE 0)
Known(o) == o = -1 \/ o \in times
Times == times \cup goals \cup foretold \cup {-1}
SlotOk(h) ==
  CASE h.e.ty = "-" -> TRUE
    [] h.s = "b" -> h.e.o = -1
    [] h.s = "g" -> h.e.o \in times \cup goals /\ h.e.o <= clock
    [] Top.k = "Anticipate" -> h.e.o # -1 /\ (h.s = "s" => Top.decl) /\ (h.s = "p" => ~Top.decl)
    [] h.s = "p" -> h.e.o \in foretold \/ (h.e.o \in times /\ h.e.o > clock)
    [] OTHER -> h.e.o \in foretold \/ (h.e.o \in times /\ h.e.o <= clock)
Ok ==
  /\ \/ E.now = clock
     \/ E.k = "Line" /\ E.ph = "e"
     \/ E.k = "Reset"
  /\ \A i \in 1..Len(E.ch) : E.ch[i].k = "slot" => SlotOk(E.ch[i])
  /\ CASE E.k = "Line" /\ E.ph = "e" -> LineOk
       [] E.k = "Reset" -> E.now = Start
       [] E.k = "Cycle" /\ E.ph = "b" -> Top.k \in {"Line", "Input"} /\ E.x = clock
       [] E.k = "Input" /\ E.ph = "b" -> /\ Top.k \in {"Line", "Cycle"}
                                         /\ Top.k = "Cycle" => ~E.eternal
                                         /\ Top.k = "Line" => E.eternal = ~Has(Top.line, ":|:")
       [] E.k = "Input" /\ E.ph = "e" -> Counts.cyc = 1 /\ Counts.inp = 0 /\ Counts.ev = 1
       [] E.k = "AddEvent" /\ E.ph = "b" /\ Top.k = "Input" -> E.e.o = InputTime(Top.eternal, clock) /\ E.e.ct = clock /\ E.e.dt = Top.dt
       [] E.k = "AddEvent" /\ E.ph = "b" /\ E.rev -> Inside("NewBelief") /\ E.e.o = -1
       [] E.k = "AddEvent" /\ E.ph = "b" /\ E.e.ty = "b" ->
              /\ Known(E.e.o) \/ (E.e.o = Cycle0 /\ Op(E.e.t) \in {TImp, Imp})   \* (implications: when they are learned)
              /\ E.e.ct = Cycle0 \/ (IsOp(E.e.t, Imp) /\ E.e.ct = 0)
              /\ E.e.o <= clock
       [] E.k = "AddEvent" /\ E.ph = "b" -> E.e.o = Cycle0 /\ E.e.ct <= clock
       [] OTHER -> TRUE
TraceInit == l = 1 /\ stack = <<>> /\ clock = Start /\ cnt = <<>> /\ times = {} /\ goals = {} /\ foretold = {}
Foretold == { E.ch[i].e.o : i \in { j \in 1..Len(E.ch) : E.ch[j].k = "slot" /\ E.ch[j].e.ty # "-" /\ Top.k = "Anticipate" /\ E.ch[j].s \in {"s", "p"} } }
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1 /\ WellNested /\ stack' = StackAfter
  /\ Ok = TRUE
  /\ IF E.k = "Reset" THEN clock' = Start /\ cnt' = <<>> /\ times' = {} /\ goals' = {} /\ foretold' = {}
     ELSE /\ clock' = (CASE E.k = "Cycle" /\ E.ph = "e" -> clock + 1
                         [] E.k = "Line" /\ E.ph = "e" -> AfterLine(Top.line)
                         [] OTHER -> clock)
          /\ cnt' = (CASE E.ph = "b" -> Append(IF cnt = <<>> THEN <<>> ELSE [cnt EXCEPT ![Len(cnt)] = Bump(@)], None)
                       [] E.ph = "e" -> SubSeq(cnt, 1, Len(cnt) - 1)
                       [] OTHER -> cnt)
          /\ times' = IF E.k = "Input" /\ E.ph = "b" /\ ~E.eternal THEN times \cup {clock} ELSE times
          /\ goals' = IF E.k = "Cycle" /\ E.ph = "b" THEN goals \cup {clock} ELSE goals
          /\ foretold' = foretold \cup Foretold
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
