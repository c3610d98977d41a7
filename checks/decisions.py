"""Decisions: scripts in which operations compete for goals (C12, C13)."""
from ona import *

KINDS = "Cycle,Pop,Goals,AddEvent,Suggest,Suggested,Consider,Outcome,Execute,Input,Forgetting,Call,Reset"
PARTS = "con,slot,link,q"
INST, PRED = ["x", "y", "z", "SELF"], ["p", "q", "s"]


def event(r, inst=INST):
    return r.choice(EV[:4]) if r.random() < .4 else "<%s --> %s>" % (r.choice(inst), r.choice(PRED))


def link(r):
    o = r.choice(OPS + ["<({SELF} * %s) --> %s>" % (r.choice(["z", "{z}", "(x * y)"]), r.choice(OPS)), "<({x} * z) --> %s>" % r.choice(OPS)])
    k = r.random()
    if k < .12:
        return "<%s =/> %s>" % (seq([event(r), event(r), r.choice(OPS)]), event(r))
    if k < .5:
        return "<(%s &/ %s) =/> %s>" % (event(r), o, event(r))
    p, q = r.choice(PRED), r.choice(PRED)
    if k < .8:
        o = r.choice([o, "<(%s) --> %s>" % (r.choice(["{SELF} * $1", "{SELF} * $1", "{$1} * z"]), r.choice(OPS))])
        return "<(<$1 --> %s> &/ %s) =/> <%s --> %s>>" % (p, o, r.choice(["$1", "$1", "x"]), q)
    if k < .9:
        return "<(<($1 * $2) --> r> &/ %s) =/> <$2 --> %s>>" % (r.choice([o, "<({SELF} * $1) --> %s>" % r.choice(OPS)]), q)
    return "<(%s &/ <({SELF} * z) --> %s>) =/> %s>" % (event(r), r.choice(OPS), event(r))


def contest(r, n=40):
    """Several concepts, general and specific, suggest different operations for one goal, with different strengths."""
    out = ["!seed %d" % r.randint(1, 10 ** 6), "*motorbabbling=%s" % r.choice(["0", "0", "0", "0.4"])]
    while len(out) < n:
        p, q = r.sample(PRED, 2)
        a, b = r.choice(INST), r.choice(EV[:4])
        ls = ["<(<$1 --> %s> &/ %s) =/> <$1 --> %s>>" % (p, r.choice(OPS), q), "<(%s &/ %s) =/> <%s --> %s>>" % (b, r.choice(OPS), a, q)]
        r.shuffle(ls)
        out += ["%s. {%s %s}" % (x, r.choice(["1.0", "0.9", "0.8"]), r.choice(["0.9", "0.3", "0.15", "0.1"])) for x in ls]
        for _ in range(2):
            es = ["<%s --> %s>. :|:%s" % (a, p, tv(r, .3)), "%s. :|:%s" % (b, tv(r, .3))]
            r.shuffle(es)
            out += es + ["<%s --> %s>! :|:%s" % (a, q, tv(r, .2))]
        if r.random() < .3:
            out.append(str(r.choice([5, 25])))
    return "\n".join(out) + "\n"


def deciding(r, n=45):
    """Known links with operations (confirmed, refuted, general, specific), events that fulfil them, goals for and against."""
    if r.random() < .2:
        return contest(r)
    out = ["!seed %d" % r.randint(1, 10 ** 6), "*motorbabbling=%s" % r.choice(["0", "0", "0.2", "0.5", "0.9"])]
    if r.random() < .4:
        out.append("*babblingops=%d" % r.choice([0, 1, 2, 3]))
    if r.random() < .3:
        out += ["*setopname %d %s" % (k + 1, o) for k, o in enumerate(OPS)]
        for _ in range(r.choice([1, 2, 3])):
            out.append("*setoparg %d %d %s" % (r.randint(1, 3), r.choice([1, 1, 2]), r.choice(["x", "(x * y)", "{z}"])))
    def weak():
        return " {%s %s}" % (r.choice(["1.0", "0.9", "0.8", "0.7"]), r.choice(["0.2", "0.15", "0.3", "0.1"]))

    def negative(p):
        return "" if r.random() > p else " {%s %s}" % (r.choice(["0.0", "0.2", "0.4", "0.0"]), r.choice(["0.9", "0.5", "0.99", "0.1"]))
    links = [link(r) for _ in range(r.choice([2, 3, 5]))]
    if r.random() < .5:
        links.append("<(<$1 --> %s> &/ %s) =/> <$1 --> %s>>" % (r.choice(PRED), r.choice(OPS), r.choice(PRED)))
    rivals = {}     # general links and links of special cases with the same goal
    for x in links[:]:
        if x.endswith("=/> <$1 --> %s>>" % x[-3]):
            y = "<(%s &/ %s) =/> <%s --> %s>>" % (r.choice(EV[:4]), r.choice(OPS), r.choice(INST), x[-3])
            links.append(y)
            rivals[y] = x
    for x in links:
        out.append(x + "." + (negative(1) if r.random() < .15 else weak() if r.random() < .3 else tv(r, .5)))
    for x in links:
        if "$1" in x and r.random() < .4:   # a known special case
            s = x.replace("$1", r.choice(INST)).replace("$2", r.choice(INST))
            out.append(s + "." + (negative(1) if r.random() < .5 else weak() if r.random() < .6 else ""))
    goals = [x[x.rindex("=/> ") + 4:-1].replace("$1", r.choice(INST)).replace("$2", r.choice(INST)) for x in links]

    def fulfil(x):
        """events that fulfil the precondition of link x, and the goal it serves"""
        a, b = r.choice(INST), r.choice(INST)
        pre, post = x[1:-1].rsplit(" =/> ", 1)
        pre = pre[1:pre.rindex(" &/ ")] if " &/ " in pre else pre
        es = pre.strip("()").split(" &/ ") if "*" not in pre else [pre]
        f = lambda t: t.replace("$1", a).replace("$2", b)
        return ["%s. :|:%s" % (f(e), tv(r, .2)) for e in es] , f(post)
    while len(out) < n:
        k = r.random()
        if k < .45:
            x = r.choice(list(rivals)) if rivals and r.random() < .5 else r.choice(links)
            if r.random() < .3:
                out.append(x + "." + (negative(1) if r.random() < .2 else tv(r, .3)))
            es, g = fulfil(x)
            out += es
            if r.random() < .25:
                out += fulfil(r.choice(links))[0]
            if r.random() < .3:
                out.append("%s! :|:%s" % (r.choice(goals), negative(1)))
            if x in rivals and r.random() < .8:
                inst = g[1:g.index(" ")]
                out += ["%s. :|:%s" % (e.replace("$1", inst), tv(r, .2)) for e in [rivals[x][2:rivals[x].index(" &/ ")]]]
            out.append("%s! :|:%s" % (g, tv(r, .1)))
        elif k < .55:
            out.append("%s. :|:%s" % (event(r), tv(r, .25)))
        elif k < .6:
            out.append("<(%s * %s) --> r>. :|:" % (r.choice(INST), r.choice(INST)))
        elif k < .8:
            g = r.choice(goals) if r.random() < .8 else r.choice([event(r), "<%s --> %s>" % (r.choice(["#1", "?1", "$1"]), r.choice(PRED))])
            if r.random() < .4:    # something to be avoided first
                out.append("%s! :|:%s" % (r.choice(goals), negative(1)))
            out.append("%s! :|:%s" % (g, tv(r, .15)))
        elif k < .86:
            out.append(str(r.choice([1, 1, 2, 4, 20])))
        elif k < .92:
            out.append("*concurrent" if out[-1].endswith(":|:") else "%s. :|:" % event(r))
        elif k < .925:
            out.append("*decisionthreshold=%s" % r.choice(["0", "0.2", "0.501", "0.55", "0.6", "0.7", "0.9", "1"]))
        elif k < .96:
            out.append("!fail %d" % r.randint(0, 2))
        else:
            out.append("%s. :|:" % r.choice(OPS))
    return "\n".join(out) + "\n"
