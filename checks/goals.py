"""Goals: scripts in which sequence goals and learned implications lead to subgoals (C14, C23)."""
from ona import *

KINDS = "Cycle,Pop,Goals,GoalSequence,AddEvent,Subgoal,Input,Execute,Activate,Reset"
INST, PRED = ["x", "y", "z"], ["p", "q", "s"]


def element(r, var=.5):
    if r.random() < .4:
        return r.choice(EV[:4])
    return "<%s --> %s>" % (r.choice(["#1", "#1", "#2", "$1"]) if r.random() < var else r.choice(INST), r.choice(PRED))


def event(r):
    return element(r, 0)


def pursuit(r, n=45):
    """Sequence goals of which some elements were observed, in and out of order, strongly and weakly."""
    out = ["!seed %d" % r.randint(1, 10 ** 6), "*motorbabbling=%s" % r.choice(["0", "0", "0.3"])]
    goals = [seq([element(r) for _ in range(r.choice([2, 2, 3, 3, 4, 5]))]) for _ in range(3)]
    if r.random() < .3:
        goals.append(seq(["<(#1 * #2) --> r>", "<#2 --> p>", "<#1 --> q>"]))
    while len(out) < n:
        k = r.random()
        if k < .45:
            out.append("%s. :|:%s" % (event(r), tv(r, .3)))
        elif k < .5:
            out.append("<(%s * %s) --> r>. :|:" % (r.choice(INST), r.choice(INST)))
        elif k < .85:
            out.append("%s! :|:%s" % (r.choice(goals), tv(r, .2)))
        elif k < .9:
            out.append(str(r.choice([1, 1, 2, 4])))
        elif k < .95:
            out.append("*concurrent" if out[-1].endswith(". :|:") else "%s. :|:" % event(r))
        else:
            out.append("%s. :|:" % r.choice(OPS))
    return "\n".join(out) + "\n"


def subgoaling(r, n=45):
    """Goals with implications, with and without operations and variables, that lead to them."""
    out = ["!seed %d" % r.randint(1, 10 ** 6), "*motorbabbling=%s" % r.choice(["0", "0", "0.3"])]
    for _ in range(r.choice([3, 6, 9])):
        k = r.random()
        p, q, o, c = r.choice(PRED), r.choice(PRED), r.choice(OPS), "=/>" if r.random() < .75 else "==>"
        oa = r.choice([o, o, "<({SELF} * $1) --> %s>" % o, "<({SELF} * z) --> %s>" % o])
        if k < .25:
            l = "<%s %s %s>" % (event(r), c, event(r))
        elif k < .5:
            l = "<%s =/> %s>" % (seq([event(r)] + ([event(r)] if r.random() < .3 else []) + [r.choice([o, "<({SELF} * z) --> %s>" % o])]), event(r))
        elif k < .75:
            l = "<<$1 --> %s> %s <$1 --> %s>>" % (p, c, q)
        elif k < .9:
            l = "<(<$1 --> %s> &/ %s) =/> <$1 --> %s>>" % (p, oa, q)
        else:
            l = "<(<($1 * $2) --> r> &/ %s) =/> <$2 --> %s>>" % (oa, q)
        out.append(l + "." + tv(r, .3))
    while len(out) < n:
        k = r.random()
        if k < .25:
            out.append("%s. :|:%s" % (event(r), tv(r, .3)))
        elif k < .8:
            out.append("%s! :|:%s" % (r.choice([event(r), event(r), "<%s --> %s>" % (r.choice(["#1", "?1", "$1"]), r.choice(PRED))]), tv(r, .2)))
        elif k < .85:
            out.append(str(r.choice([1, 1, 2, 4])))
        elif k < .9:
            out.append("*concurrent" if out[-1].endswith(". :|:") else "%s. :|:" % event(r))
        else:
            out.append("%s. :|:" % r.choice(OPS))
    return "\n".join(out) + "\n"
