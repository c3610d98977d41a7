"""Experience to learn from: events, operations and statements in all orders and distances (C11)."""
from ona import *

KINDS = "Cycle,Pop,Beliefs,Sensorimotor,Activate,Reinforce,AddEvent,NewBelief,Table,Reset"
PARTS = "con,slot,ring,sel"


def experience(r, n=34):
    out = ["!seed %d" % r.randint(1, 10 ** 6), "*motorbabbling=0"]
    k = r.random()
    names = ["x", "y", "z"]

    def rel():
        return r.choice(["<%s --> %s>", "<{%s} --> [%s]>", "<(%s * %s) --> r>", "<(%s * w) --> %s>", "<{%s} --> %s>", "<(! %s) --> %s>"]) % (r.choice(names), r.choice(names))
    pool = ["a", "b", "c", "d"] if k < .4 else [rel() for _ in range(4)] if k < .7 else ["a", "b", rel(), rel()]
    if r.random() < .3:
        pool.append(seq([r.choice(pool[:3]), r.choice(pool[:3])]))
    if r.random() < .15:
        pool.append("(! %s)" % pool[0])
    if r.random() < .1:
        pool.append(r.choice(["<#1 --> x>", "<<$1 --> x> ==> <$1 --> y>>", "(<x --> y> && <#1 --> y>)", "(a || b)", "<x <-> y>", "<<x --> y> <=> <y --> x>>"]))
    ops = OPS + ["<({SELF} * x) --> ^left>", "<({SELF} * y) --> ^right>"]
    while len(out) < n:
        k = r.random()
        if k < .5:
            out.append("%s. :|:%s" % (r.choice(pool), tv(r, .25)))
            if r.random() < .2:
                out.append("*concurrent")
                out.append("%s. :|:%s" % (r.choice(pool + ops), tv(r, .25)))
        elif k < .75:
            out.append("%s. :|:%s" % (r.choice(ops), tv(r, .1)))
        elif k < .83:
            out.append(r.choice(["1", "1", "2", "5", "12", "16", "17", "18", "19", "20", "21"]))
        elif k < .87:
            out.append("%s! :|:" % r.choice(pool[:4]))
        elif k < .92:
            x, y = r.choice(pool[:4]), r.choice(pool[:4])
            out.append("<%s =/> %s>.%s" % (r.choice([x, seq([x, r.choice(ops)])]), y, tv(r, .4)))
        elif k < .95:
            out.append("%s." % r.choice(pool[:4]))
        else:
            out.append("%s? :|:" % r.choice(pool[:4]))
    return "\n".join(out) + "\n"
