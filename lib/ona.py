"""Whole-system recordings: random shell scripts for the recorder harness/trace.c."""
import itertools
from common import *

TINY = dict(CONCEPTS_MAX=24, CYCLING_BELIEF_EVENTS_MAX=8, CYCLING_GOAL_EVENTS_MAX=6, CYCLING_GOAL_EVENTS_LAYERS=4, TABLE_SIZE=4,
            STAMP_SIZE=6, OPERATIONS_MAX=4, OCCURRENCE_TIME_INDEX_SIZE=16)
SMALL = dict(CONCEPTS_MAX=120, CYCLING_BELIEF_EVENTS_MAX=20, CYCLING_GOAL_EVENTS_MAX=12, CYCLING_GOAL_EVENTS_LAYERS=6, TABLE_SIZE=6,
             STAMP_SIZE=10, OPERATIONS_MAX=4, OCCURRENCE_TIME_INDEX_SIZE=40)
ROOMY = dict(CONCEPTS_MAX=400, CYCLING_BELIEF_EVENTS_MAX=40, CYCLING_GOAL_EVENTS_MAX=40, CYCLING_GOAL_EVENTS_LAYERS=8, TABLE_SIZE=20,
             STAMP_SIZE=10, OPERATIONS_MAX=4, OCCURRENCE_TIME_INDEX_SIZE=512)
CRAMPED = dict(TINY, CONCEPTS_MAX=9)
CONFIGS = {"tiny": TINY, "cramped": CRAMPED, "small": SMALL, "roomy": ROOMY}


def recorder(cfg="tiny", extra=None):
    c = dict(CONFIGS[cfg])
    c.update(extra or {})
    return build("trace_" + cfg + ("" if not extra else "_x%d" % abs(hash(tuple(sorted(extra.items()))))), ["trace.c", "vlog.c"], config=c)


_n = itertools.count()
RESET = '{"k":"Reset","ph":"p","id":0,"d":0,"now":1,"base":1,"ch":[]}'   # every trace starts with it


def record(exe, script, kinds, parts, timeout=120, limit=None):
    """Run a script; list of JSON lines, or a string when the system crashed or hung."""
    p = os.path.join(SCRATCH, "rec%d" % next(_n))
    rc, o, e = run(["bash", "-c", 'exec "$0" "$1" "$2" 3>"$3"', exe, kinds, parts, p], stdin=script, timeout=timeout)
    if rc != 0:
        return "exit %s: %s" % (rc, (o + e)[-400:])
    with open(p, errors="replace") as f:
        lines = f.read().split("\n")
    os.unlink(p)
    lines = [RESET] + [l for l in lines if l]
    return lines[:limit] if limit else lines


# ------------------------------------------------------------------ script generation
def tv(r, p=0.4, ops=False):
    if r.random() > p:
        return ""
    return " {%s %s}" % (r.choice(["1.0", "0.0", "0.5", "0.8", "0.2", "0.9", "1.0", "1.0"]), r.choice(["0.9", "0.5", "0.8", "0.3", "0.99", "0.6", "0.45"]))


EV = list("abcdef")
OPS = ["^left", "^right", "^up"]
STATEMENTS = ["<%s --> %s>", "<%s <-> %s>", "<(%s * %s) --> r>", "<{%s} --> [%s]>", "<{%s} --> %s>"]


def statement(r, names=("x", "y", "z", "w")):
    a, b = r.choice(names), r.choice(names)
    return r.choice(STATEMENTS) % (a, b)


def seq(xs):
    """left-nested sequence of the given elements"""
    out = xs[0]
    for x in xs[1:]:
        out = "(%s &/ %s)" % (out, x)
    return out


def procedural(r, n, ops=True, goals=True, seqs=True, opargs=True, stm=0.1, nev=4, negatives=True):
    """Events, operations, goals."""
    ev = EV[:nev]
    out = []

    def one():
        return statement(r) if r.random() < stm else r.choice(ev)

    def opn():
        o = r.choice(OPS)
        return "<({SELF} * %s) --> %s>" % (r.choice(["x", "y", "{z}"]), o) if opargs and r.random() < 0.2 else o
    chain = [one() for _ in range(3)]
    while len(out) < n:
        k = r.random()
        if k < 0.3:   # an experience episode: pre op post
            out.append("%s. :|:%s" % (r.choice(chain), tv(r, 0.2)))
            if ops and r.random() < 0.75:
                out.append("%s. :|:" % opn())
                if r.random() < 0.15:
                    out.append("%s. :|:" % opn())
            out.append("%s. :|:%s" % (r.choice(chain), tv(r, 0.2)))
            if r.random() < 0.3:
                out.append(str(r.choice([1, 2, 5, 20, 25])))
        elif k < 0.45:
            out.append("%s. :|:%s" % (one(), tv(r)))
        elif k < 0.5:
            out.append("%s.%s" % (one(), tv(r)))
        elif k < 0.65 and goals:
            g = r.choice(chain + ev)
            if seqs and r.random() < 0.2:
                g = seq([r.choice(ev) for _ in range(r.choice([2, 2, 3, 3, 4]))] + ([opn()] if r.random() < 0.3 else []))
            out.append("%s! :|:%s" % (g, tv(r, 0.15)))
        elif k < 0.75:
            a = seq([r.choice(ev)] + ([r.choice(ev)] if r.random() < 0.3 else []) + ([opn()] if ops and r.random() < 0.7 else []))
            out.append("%s<%s =/> %s>.%s" % ("" if r.random() < 0.85 else "dt=%s " % r.choice(["1", "3", "7.5"]), a, r.choice(ev), tv(r, 0.3)))
        elif k < 0.8:
            out.append(r.choice(["1", "", "2", "3", "10", "30"]))
        elif k < 0.84 and seqs:
            out.append("(%s &/ %s). :|:" % (r.choice(ev), r.choice(ev + (OPS if ops else []))))
        elif k < 0.9:
            out.append("%s? %s" % (one(), r.choice(["", ":|:", ":/:", ":\\:"])))
        elif k < 0.93:
            out.append("*concurrent" if out and out[-1].endswith(":|:") else "1")
        elif k < 0.96 and ops:
            out.append("!fail %d" % r.randint(0, 2))
        elif ops:
            out.append("*motorbabbling=%s" % r.choice(["0", "0.5", "0.9", "0.0", "0"]))
    return out


def declarative(r, n, tense=0.3, variables=True, questions=True):
    names = ["x", "y", "z", "w"]
    out = []

    def st(vs=("$1", "#1")):
        a, b, c = r.choice(names), r.choice(names), r.choice(names)
        return r.choice(["<%s --> %s>" % (a, b)] * 4 + ["<%s <-> %s>" % (a, b), "<(%s * %s) --> r>" % (a, b), "<{%s} --> [%s]>" % (a, b), "<{%s} --> %s>" % (a, b), "<(%s & %s) --> %s>" % (a, b, c), "<%s --> (%s | %s)>" % (a, b, c), "<%s --> (r /1 %s)>" % (a, b)])
    while len(out) < n:
        k = r.random()
        t = " :|:" if r.random() < tense else ""
        if k < 0.6:
            out.append("%s.%s%s" % (st(), t, tv(r)))
        elif k < 0.7:
            a, b = st(), st()
            out.append(r.choice(["<%s ==> %s>.", "(%s && %s).", "<(%s && <x --> y>) ==> %s>.", "<%s <=> %s>."]) % (a, b) + t)
        elif k < 0.78 and variables:
            out.append(r.choice(["<<$1 --> x> ==> <$1 --> y>>.", "(<#1 --> x> && <#1 --> y>).", "<(<$1 --> x> && <$1 --> z>) ==> <$1 --> w>>.", "<<$1 --> y> =/> <$1 --> z>>."]) + (t if r.random() < .3 else ""))
        elif k < 0.9 and questions:
            out.append(r.choice(["<x --> ?1>?", "<?1 --> y>?", "<x --> y>?", "<?1 ==> ?2>?", "(?1 && ?2)?", "<z --> ?1>? :|:", "<?1 --> w>! :|:" if r.random() < .3 else "<x --> z>?"]))
        else:
            out.append(r.choice(["1", "2", "5", ""]))
    return out


def script(r, kind=None, n=30):
    k = kind or r.choice(["proc", "proc", "decl", "mixed"])
    head = ["!seed %d" % r.randint(1, 10 ** 6)] + (["*motorbabbling=%s" % r.choice(["0", "0.3", "0.9"])] if r.random() < .6 else [])
    if k == "proc":
        body = procedural(r, n)
    elif k == "decl":
        body = declarative(r, n)
    else:
        body = []
        while len(body) < n:
            body += procedural(r, 5, stm=0.3) if r.random() < .5 else declarative(r, 4)
    if r.random() < .12:
        body.insert(r.randint(len(body) // 2, len(body)), "!reset" if r.random() < .5 else "*reset")
    return "\n".join(head + body) + "\n"


def scripts(key, n, **kw):
    return [script(rng(key, k), **kw) for k in range(n)]


def system_traces(chk, module, kinds, parts, key, quick, thorough, cfgs=("tiny", "small"), make=None, subst=None, **kw):
    """Record random runs of the whole system and validate them against spec/<module>.tla; a share of them per configuration.
    The configuration's constants reach the specification through spec/<module>.cfg with %NAME% placeholders."""
    n = thorough if THOROUGH else quick
    base = open(os.path.join(SPEC, module + ".cfg")).read()
    for i, c in enumerate(cfgs):
        conf = dict(CONFIGS[c], CELLS=31 * CONFIGS[c]["CONCEPTS_MAX"], **(subst or {}))
        text = re.sub(r"(?m)^(.*?)(\w+)(\s*=\s*)\S+\s*\\\* @(\w+)", lambda m: "%s%s%s%s" % (m.group(1), m.group(2), m.group(3), conf[m.group(4)]), base)
        exe = recorder(c)
        sc = [(make or script)(rng(key, c, k)) for k in range(n // len(cfgs))]
        if i == 0:
            chk.sample(sc[0][:300])
        validate_scripts(chk, module, lambda s, exe=exe: record(exe, s, kinds, parts), sc, cfg=text + "\n", defer=True, **kw)
