---------------------------- MODULE ServerModel ----------------------------
(* The server's design (C18), step by step: starting with a handshake, the   *)
(* reasoner's and the receiver's thread, another thread, the network, and    *)
(* stopping at any time.  Each visible step has to be allowed by Server.     *)
EXTENDS Server
CONSTANTS Texts,      \* what is sent
          Rounds      \* inputs of the other thread
VARIABLES main, rsn, rcv, oth, net,    \* where each of them is
          sm,        \* who has the mutex of the handshake
          sig,       \* the starting thread has been woken up
          up,        \* how many of the server's threads have reported
          stopped, shut, closed,       \* flag and socket
          n, text, rd, m, ok
vars == <<main, rsn, rcv, oth, net, sm, sig, up, stopped, shut, closed, n, text, rd, m, ok>>
Step == [s |-> 0, n |-> 10]
Main == 0  Rsn == 1  Rcv == 2  Oth == 3
Init == /\ main = "init" /\ rsn = "-" /\ rcv = "-" /\ oth = "-" /\ net = 1
        /\ sm = -1 /\ sig = FALSE /\ up = 0 /\ stopped = FALSE /\ shut = FALSE /\ closed = FALSE /\ n = 0 /\ text = "" /\ rd = 0
        /\ m = Fresh(Step) /\ ok = TRUE
Do(e) == m' = After(m, e) /\ ok' = (ok /\ Allowed(m, e))
Quiet == UNCHANGED <<m, ok>>
Ev(k, th) == [k |-> k, th |-> th]
Use(th, what, x, s) == [k |-> "use", th |-> th, what |-> what, x |-> x, text |-> s]
Used(th, r) == [k |-> "used", th |-> th, r |-> r]
M(a, b) == main = a /\ main' = b
MainStep ==
  /\ UNCHANGED <<net, n, text, rd>>
  /\ \/ M("init", "init2") /\ Do(Use(Main, "init", 0, "")) /\ UNCHANGED <<rsn, rcv, oth, sm, sig, up, stopped, shut, closed>>
     \/ M("init2", "lock1") /\ Do(Used(Main, 0)) /\ UNCHANGED <<rsn, rcv, oth, sm, sig, up, stopped, shut, closed>>
     \/ M("lock1", "create1") /\ sm = -1 /\ sm' = Main /\ Quiet /\ UNCHANGED <<rsn, rcv, oth, sig, up, stopped, shut, closed>>
     \/ M("create1", "test1") /\ rsn' = "begin" /\ Do(Ev("create", Rsn)) /\ UNCHANGED <<rcv, oth, sm, sig, up, stopped, shut, closed>>
     \/ M("create2", "test2") /\ rcv' = "begin" /\ Do(Ev("create", Rcv)) /\ UNCHANGED <<rsn, oth, sm, sig, up, stopped, shut, closed>>
     \/ \E i \in {1, 2} :
          LET I(s) == s \o ToString(i) IN
          \/ M(I("test"), I(IF up < i THEN "wait" ELSE "unlock")) /\ (IF up < i THEN sm' = -1 /\ sig' = FALSE ELSE UNCHANGED <<sm, sig>>)
             /\ Quiet /\ UNCHANGED <<rsn, rcv, oth, up, stopped, shut, closed>>
          \/ M(I("wait"), I("wait")) /\ ~sig /\ sig' = TRUE /\ Quiet /\ UNCHANGED <<rsn, rcv, oth, sm, up, stopped, shut, closed>>     \* for no reason
          \/ M(I("wait"), I("test")) /\ sig /\ sm = -1 /\ sm' = Main /\ Quiet /\ UNCHANGED <<rsn, rcv, oth, sig, up, stopped, shut, closed>>
     \/ M("unlock1", "lock2") /\ sm' = -1 /\ Quiet /\ UNCHANGED <<rsn, rcv, oth, sig, up, stopped, shut, closed>>
     \/ M("lock2", "create2") /\ sm = -1 /\ sm' = Main /\ Quiet /\ UNCHANGED <<rsn, rcv, oth, sig, up, stopped, shut, closed>>
     \/ M("unlock2", "started") /\ sm' = -1 /\ Quiet /\ UNCHANGED <<rsn, rcv, oth, sig, up, stopped, shut, closed>>
     \/ M("started", "other") /\ Do(Ev("started", Main)) /\ UNCHANGED <<rsn, rcv, oth, sm, sig, up, stopped, shut, closed>>
     \/ M("other", "on") /\ oth' = "begin" /\ Do(Ev("create", Oth)) /\ UNCHANGED <<rsn, rcv, sm, sig, up, stopped, shut, closed>>
     \/ M("on", "stop") /\ Do(Ev("stop", Main)) /\ UNCHANGED <<rsn, rcv, oth, sm, sig, up, stopped, shut, closed>>
     \/ M("stop", "shut") /\ stopped' = TRUE /\ Quiet /\ UNCHANGED <<rsn, rcv, oth, sm, sig, up, shut, closed>>
     \/ M("shut", "close") /\ shut' = TRUE /\ Quiet /\ UNCHANGED <<rsn, rcv, oth, sm, sig, up, stopped, closed>>
     \/ M("close", "join1") /\ closed' = TRUE /\ Quiet /\ UNCHANGED <<rsn, rcv, oth, sm, sig, up, stopped, shut>>
     \/ M("join1", "join2") /\ rsn = "-" /\ Quiet /\ UNCHANGED <<rsn, rcv, oth, sm, sig, up, stopped, shut, closed>>
     \/ M("join2", "stats") /\ rcv = "-" /\ Quiet /\ UNCHANGED <<rsn, rcv, oth, sm, sig, up, stopped, shut, closed>>
     \/ M("stats", "stopped") /\ Do(Use(Main, "stats", 0, "")) /\ UNCHANGED <<rsn, rcv, oth, sm, sig, up, stopped, shut, closed>>
     \/ M("stopped", "over") /\ Do(Ev("stopped", Main)) /\ UNCHANGED <<rsn, rcv, oth, sm, sig, up, stopped, shut, closed>>
     \/ M("over", "done") /\ Do(Ev("over", Main)) /\ UNCHANGED <<rsn, rcv, oth, sm, sig, up, stopped, shut, closed>>
\* a server's thread reports that it runs
Report(pc, th, next) ==
  \/ pc[1] = "begin" /\ pc[2] = "hs1" /\ Do(Ev("begin", th)) /\ UNCHANGED <<sm, sig, up>>
  \/ pc[1] = "hs1" /\ pc[2] = "hs2" /\ sm = -1 /\ sm' = th /\ Quiet /\ UNCHANGED <<sig, up>>
  \/ pc[1] = "hs2" /\ pc[2] = "hs3" /\ up' = up + 1 /\ sig' = TRUE /\ Quiet /\ UNCHANGED sm
  \/ pc[1] = "hs3" /\ pc[2] = next /\ sm' = -1 /\ Quiet /\ UNCHANGED <<sig, up>>
Same == UNCHANGED <<main, oth, net, stopped, shut, closed, rd>>
NextPc == {"hs1", "hs2", "hs3", "run", "lock", "use", "used", "unlock", "pause", "end", "-", "recv", "got", "reset", "init", "inited"}
Lock(th) == m.holder = -1 /\ Do(Ev("lock", th))
ReasonerStep ==
  /\ Same /\ UNCHANGED <<rcv, n, text>>
  /\ \/ \E p \in NextPc : rsn' = p /\ Report(<<rsn, p>>, Rsn, "run")
     \/ /\ UNCHANGED <<sm, sig, up>>
        /\ \/ rsn = "run" /\ rsn' = (IF stopped THEN "end" ELSE "lock") /\ Quiet
           \/ rsn = "lock" /\ rsn' = "use" /\ Lock(Rsn)
           \/ rsn = "use" /\ rsn' = "used" /\ Do(Use(Rsn, "cycles", 1, ""))
           \/ rsn = "used" /\ rsn' = "unlock" /\ Do(Used(Rsn, 0))
           \/ rsn = "unlock" /\ rsn' = "pause" /\ Do(Ev("unlock", Rsn))
           \/ rsn = "pause" /\ rsn' = "run" /\ Do([k |-> "pause", th |-> Rsn, s |-> Step.s, n |-> Step.n])
           \/ rsn = "end" /\ rsn' = "-" /\ Do(Ev("end", Rsn))
ReceiverStep ==
  /\ Same /\ UNCHANGED rsn
  /\ \/ \E p \in NextPc : rcv' = p /\ Report(<<rcv, p>>, Rcv, "recv") /\ UNCHANGED <<n, text>>
     \/ /\ UNCHANGED <<sm, sig, up>>
        /\ \/ /\ rcv = "recv" /\ rcv' = "got"
              /\ \/ ~closed /\ m.inbox # <<>> /\ text' = Head(m.inbox) /\ Do([k |-> "take", th |-> Rcv, text |-> text']) /\ UNCHANGED n
                 \/ (shut \/ closed) /\ text' = "" /\ Quiet /\ UNCHANGED n
           \/ rcv = "got" /\ rcv' = (IF stopped THEN "end" ELSE "lock") /\ Quiet /\ UNCHANGED <<n, text>>
           \/ rcv = "lock" /\ rcv' = "use" /\ Lock(Rcv) /\ UNCHANGED <<n, text>>
           \/ rcv = "use" /\ rcv' = "used" /\ Do(Use(Rcv, "text", 0, text)) /\ UNCHANGED <<n, text>>
           \/ rcv = "used" /\ rcv' = (IF text = "*reset" THEN "init" ELSE "unlock") /\ Do(Used(Rcv, IF text = "*reset" THEN 1 ELSE 0)) /\ UNCHANGED <<n, text>>
           \/ rcv = "init" /\ rcv' = "inited" /\ Do(Use(Rcv, "init", 0, "")) /\ UNCHANGED <<n, text>>
           \/ rcv = "inited" /\ rcv' = "unlock" /\ Do(Used(Rcv, 0)) /\ UNCHANGED <<n, text>>
           \/ rcv = "unlock" /\ rcv' = "recv" /\ Do(Ev("unlock", Rcv)) /\ n' = n + 1 /\ UNCHANGED text
           \/ rcv = "end" /\ rcv' = "-" /\ Do(Ev("end", Rcv)) /\ UNCHANGED <<n, text>>
OtherStep ==
  /\ UNCHANGED <<main, rsn, rcv, net, sm, sig, up, stopped, shut, closed, n, text>>
  /\ \/ oth = "begin" /\ oth' = "lock" /\ Do(Ev("begin", Oth)) /\ UNCHANGED rd
     \/ oth = "lock" /\ rd < Rounds /\ oth' = "use" /\ Lock(Oth) /\ UNCHANGED rd
     \/ oth = "use" /\ oth' = "used" /\ Do(Use(Oth, "input", 0, "x")) /\ UNCHANGED rd
     \/ oth = "used" /\ oth' = "unlock" /\ Do(Used(Oth, 0)) /\ UNCHANGED rd
     \/ oth = "unlock" /\ oth' = "lock" /\ Do(Ev("unlock", Oth)) /\ rd' = rd + 1
     \/ oth = "lock" /\ rd = Rounds /\ oth' = "-" /\ Do(Ev("end", Oth)) /\ UNCHANGED rd
NetStep == /\ net <= Len(Texts) /\ main \notin {"init", "init2"} /\ net' = net + 1 /\ Do([k |-> "send", text |-> Texts[net]])
           /\ UNCHANGED <<main, rsn, rcv, oth, sm, sig, up, stopped, shut, closed, n, text, rd>>
Next == MainStep \/ ReasonerStep \/ ReceiverStep \/ OtherStep \/ NetStep
Spec == Init /\ [][Next]_vars /\ WF_vars(MainStep) /\ SF_vars(ReasonerStep) /\ SF_vars(ReceiverStep) /\ WF_vars(OtherStep)
AllAllowed == ok
Exclusive == Cardinality({ x \in {<<rsn, 1>>, <<rcv, 2>>, <<oth, 3>>} : x[1] \in {"used", "inited"} }) <= 1
Settled == (rcv = "recv" /\ ~stopped) => m.taken = <<>>     \* what was received has been processed
InOrder == n <= Len(Texts)
Stops == <>(main = "done")
ThreeTexts == <<"a", "*reset", "a">>
=============================================================================
