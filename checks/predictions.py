"""Predictions: scripts in which learned implications predict, rightly and wrongly (C19)."""
from ona import *

KINDS = "Cycle,Pop,Beliefs,Anticipate,Predict,NegativeConfirmation,Table,NewBelief,Execute,Input,Reset"
PARTS = "con,slot,link"
INST, PRED = ["x", "y", "z"], ["p", "q", "s"]


def event(r):
    return r.choice(EV[:4]) if r.random() < .45 else "<%s --> %s>" % (r.choice(INST), r.choice(PRED))


def op(r, var="$1"):
    o = r.choice(OPS)
    k = r.random()
    return o if k < .55 else "<({SELF} * %s) --> %s>" % (r.choice(["z", "x", "{x}", var, var]), o)


def link(r):
    k, p, q = r.random(), r.choice(PRED), r.choice(PRED)
    c = "=/>" if r.random() < .8 else "==>"
    if k < .25:
        return "<%s %s %s>" % (event(r), c, event(r))
    if k < .5:
        return "<%s =/> %s>" % (seq([event(r)] + ([event(r)] if r.random() < .2 else []) + [op(r, "z")]), event(r))
    if k < .65:
        return "<<$1 --> %s> %s <$1 --> %s>>" % (p, c, q)
    if k < .85:
        return "<(<$1 --> %s> &/ %s) =/> <%s --> %s>>" % (p, op(r), r.choice(["$1", "$1", "y"]), q)
    if k < .95:
        return "<(<($1 * $2) --> r> &/ %s) =/> <$2 --> %s>>" % (op(r, "$2"), q)
    return "<<%s --> p> %s <$1 --> q>>" % (r.choice(INST), c)


def predicting(r, n=45):
    out = ["!seed %d" % r.randint(1, 10 ** 6), "*motorbabbling=0"]
    links = [link(r) for _ in range(r.choice([2, 4, 6]))]
    for x in links:
        out.append("%s%s.%s" % ("" if r.random() < .6 or "=/>" not in x else "dt=%s " % r.choice(["1", "2", "2.5", "7.5", "3"]), x,
                                " {0.0 0.9}" if r.random() < .12 else " {%s %s}" % (r.choice(["1.0", "0.9", "0.0"]), r.choice(["0.1", "0.04", "0.3"])) if r.random() < .2 else tv(r, .4)))
    while len(out) < n:
        k = r.random()
        if k < .6:
            x = r.choice(links)
            a, b = r.choice(INST), r.choice(INST)
            f = lambda t: t.replace("$1", a).replace("$2", b)
            pre, post = re.split(" =/> | ==> ", x[1:-1], maxsplit=1)
            es = re.sub(r"^\(+(?!\$)", "", pre)
            if " &/ " in pre:
                parts = pre.split(" &/ ")
                es = [parts[0].lstrip("(") if not parts[0].startswith("(<(") else parts[0][1:]] + [p[:-1] for p in parts[1:]]
            else:
                es = [pre]
            out += ["%s. :|:%s" % (f(e), tv(r, .2)) for e in es]
            if r.random() < .5:
                out.append(str(r.choice([1, 2, 3])))
            if r.random() < .55:
                out.append("%s. :|:%s" % (f(post), tv(r, .2)))
        elif k < .7:
            out.append("%s. :|:%s" % (event(r), tv(r, .25)))
        elif k < .8:
            out.append("%s. :|:" % op(r, "x"))
        elif k < .85:
            out.append("<(%s * %s) --> r>. :|:" % (r.choice(INST), r.choice(INST)))
        elif k < .9:
            out.append(str(r.choice([1, 1, 2, 4, 20])))
        elif k < .95:
            out.append("*concurrent" if out[-1].endswith(":|:") else "%s. :|:" % event(r))
        else:
            out.append("%s. :/:" % event(r) if False else "%s." % event(r))
    return "\n".join(out) + "\n"
