"""Attention: scripts that fill the event queues with repeated, weak, complex and competing events (C20)."""
from ona import *

KINDS = "Line,Cycle,Pop,Beliefs,Goals,Inference,Single,Sensorimotor,GoalSequence,Forgetting,AddEvent,NewBelief,Execute,Reset"
PARTS = "con,slot,q,use"


def crowding(r, n=40):
    out = ["!seed %d" % r.randint(1, 10 ** 6), "*motorbabbling=%s" % r.choice(["0", "0", "0.4"])]
    pool = [r.choice([statement(r), statement(r), r.choice(EV), "(%s &/ %s)" % (r.choice(EV), r.choice(EV)), "(! %s)" % r.choice(EV), "<%s ==> %s>" % (statement(r), statement(r)),
                      "<{%s} |-> [%s]>" % (r.choice("xy"), r.choice("pq")), "<({%s} * {%s}) --> (+ %s)>" % (r.choice("xy"), r.choice("zw"), r.choice("pq")),
                      "<%s =/> %s>" % (seq([r.choice(EV[:3]), r.choice(OPS)]), r.choice(EV[:3])), "<%s =/> %s>" % (r.choice(EV[:3]), r.choice(EV[:3]))]) for _ in range(r.choice([5, 9]))]
    while len(out) < n:
        k, x = r.random(), r.choice(pool)
        t = "" if "=/>" in x or r.random() < .3 else " :|:"
        if k < .6:
            out.append("%s.%s%s" % (x, t, r.choice(["", "", " {1.0 0.9}", " {0.0 0.5}", " {1.0 0.3}", " {1.0 0.01}", " {1.0 0.009}", " {0.8 0.02}", " {1.0 0.99}"])))
            if t and r.random() < .25:
                out.append("*concurrent")
                out.append("%s. :|:" % r.choice([p for p in pool if "=/>" not in p] + ["a"]))
        elif k < .75:
            out.append("%s! :|:%s" % (r.choice(EV[:3] + [p for p in pool if "=/>" not in p and "==>" not in p]), tv(r, .3)))
        elif k < .8:
            out.append(r.choice(OPS) + ". :|:")
        elif k < .85:
            out.append("%s? %s" % (x, r.choice(["", ":|:"])))
        else:
            out.append(r.choice(["1", "1", "3", "", "12", "40"]))
    return "\n".join(out) + "\n"
