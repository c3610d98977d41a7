"""C09 Inference: Inference.tla on the real rules (component) and in whole-system runs."""
import re

from ona import *
from ona import script as ona_script

VARS = ["$1", "$2", "#1", "#2"]
ATOMS = ["a", "b", "c", "d", "e"]


def rules():
    """The rules of the specification, for choosing premises to which they nearly apply."""
    s = open(os.path.join(SPEC, "Rules.tla")).read()
    out = {}
    for name in ("InferenceRules", "Reductions"):
        b = s[s.index(name + " == <<") + len(name) + 4:]
        b = b[:re.search(r"^>>", b, re.M).end()]
        b = re.sub(r"\\\*.*", "", b).replace("<<", "[").replace(">>", "]").replace("TRUE", "true").replace("FALSE", "false")
        out[name] = json.loads(b)
    return out["InferenceRules"], out["Reductions"]


RULES, REDUCTIONS = rules()
TWO = [r for r in RULES if r[0] == 2]
ONE = [r for r in RULES if r[0] == 1]
CAPS = set("ABCMPRS")


def stmt(r, d):
    k = r.random()
    if k < .12:
        return ["!", stmt(r, d), "@"]
    if k < .2 and d > 0:
        return [r.choice(";_"), stmt(r, d - 1), stmt(r, d - 1)]
    if k < .25:
        return [":", ["*", ["\"", "SELF", "@"], part(r, 0)], r.choice(["^left", "^right"])]
    if k < .3 and d > 0:
        return [r.choice("?^"), stmt(r, d - 1), stmt(r, d - 1)]
    return [r.choice(":::="), part(r, d), part(r, d)]


def part(r, d):
    k = r.random()
    if d == 0 or k < .5:
        return r.choice(ATOMS) if r.random() < .8 else r.choice(VARS)
    if k < .65:
        return [r.choice("\"'"), part(r, 0) if r.random() < .8 else [".", part(r, 0), part(r, 0)], r.choice(["@", "@", part(r, 0)])]
    return [r.choice("*&|-~/\\%#"), part(r, d - 1), part(r, d - 1)]


def fits(t, i=0):
    return i < 64 and (isinstance(t, str) or all(fits(x, 2 * i + 1 + k) for k, x in enumerate(t[1:])))


def fill(p, s):
    """Pattern p ([op, ..] or [leaf]) with the capital letters in s replaced."""
    return s.get(p[0], p[0]) if len(p) == 1 else [p[0]] + [fill(x, s) for x in p[1:]]


def caps(p):
    return ({p[0]} & CAPS) if len(p) == 1 else set().union(*[caps(x) for x in p[1:]])


def statementlike(p, top=True):
    """Capital letters that stand for statements in a rule."""
    if len(p) == 1:
        return {p[0]} if top else set()
    if p[0] in "?^;_!":
        return statementlike(p[1]) | (statementlike(p[2]) if len(p) > 2 else set())
    return set()


def noise(r, t, p):
    if r.random() < p:
        return r.choice([part(r, 1), stmt(r, 1), "@"]) if r.random() < .7 else r.choice(ATOMS)
    return t if isinstance(t, str) else [t[0] if r.random() > p / 2 else r.choice(":=?^;_*&|"), *[noise(r, x, p) for x in t[1:]]]


def instance(r, ps):
    st = set().union(*[statementlike(p) for p in ps])
    names = set().union(*[caps(p) for p in ps])
    d = r.choice([0, 0, 0, 1])
    s = {v: (stmt(r, d) if v in st and r.random() < .9 else part(r, d)) for v in names}
    if r.random() < .25 and len(names) > 1:
        x, y = r.sample(sorted(names), 2)
        s[x] = s[y]
    return [fill(p, s) for p in ps]


def unify_pair(r):
    """Premises for the inferences with implications: a statement and one it occurs in, with variables."""
    x, y, z = r.choice(ATOMS), r.choice(ATOMS), r.choice(ATOMS)
    a = [":", x, y]
    k = r.random()
    va = r.choice([[":", "$1", y], [":", x, "$1"], [":", "$1", "$2"], a, ["$1"][0], [":", "#1", y], [":", ["*", "$1", z], y]])
    if isinstance(va, list) and va[1] == ["*", "$1", z] and r.random() < .6:
        a = [":", ["*", x, z], y]
    vb = r.choice([[":", "$1", z], [":", z, "$1"], stmt(r, 0), [":", "$2", "$1"], [":", "#1", z]])
    c = r.choice([[":", "$1", r.choice(ATOMS)], stmt(r, 0), [":", ["*", "$1", "$2"], z]])
    op = r.choice("?^?^;")
    if op == ";":
        u = [";", va, vb]
    elif k < .3:
        u = [op, va, vb]
    elif k < .5:
        u = [op, vb, va]
    else:
        u = [op, [r.choice(";;;_+"), va, vb] if r.random() < .6 else [";", vb, va], c]
    if r.random() < .1:
        a = r.choice([[":", "$1", y], [":", "#1", y], ["?", [":", "$1", x], [":", "$1", y]]])
    return [a, u]


def txt(t):
    return t if isinstance(t, str) else "( " + t[0] + " " + " ".join(txt(x) for x in t[1:]) + " )"


NAMES = {":": "-->", "=": "<->", "?": "==>", "^": "<=>", "$": "=/>", "+": "&/", "*": "*", ";": "&&", "_": "||", "&": "&", "|": "|", "-": "-", "~": "~",
         "/": "/1", "\\": "\\1", "%": "/2", "#": "\\2", ",": "|->", ".": "."}


def narsese(t):
    """Narsese text denoting t, or None."""
    if isinstance(t, str):
        return None if t == "@" else t
    if t[0] in "\"'":
        e = elements(t)
        return e and ("{%s}" if t[0] == "\"" else "[%s]") % " ".join(e)
    a = narsese(t[1])
    if t[0] == "!":
        return a and t[2] == "@" and "(! %s)" % a
    b = narsese(t[2])
    return a and b and "(%s %s %s)" % (a, NAMES[t[0]], b)


def elements(t):
    e = [t[1]] + ([] if t[2] == "@" else [t[2]])
    e = [narsese(x) for x in e if not (isinstance(x, list) and x[0] == ".")]
    return e if len(e) == 1 and t[2] == "@" and e[0] else None


def value(r):
    f = r.choice([0, 10 ** 8, 10 ** 8, 9 * 10 ** 7, 5 * 10 ** 7]) if r.random() < .6 else r.randint(0, 10 ** 4) * 10 ** 4
    c = r.choice([9 * 10 ** 7, 99 * 10 ** 6, 5 * 10 ** 7]) if r.random() < .6 else r.randint(1, 9900) * 10 ** 4
    return f, c


def script(r, n, k0):
    out = []
    while len(out) < n:
        k = r.random()
        if k < .55:
            rule = TWO[(k0 + len(out)) % len(TWO)] if r.random() < .7 else r.choice(TWO)
            ts = instance(r, rule[1:3])
        elif k < .72:
            rule = r.choice(ONE)
            ts = instance(r, rule[1:2])
        elif k < .82:
            ts = unify_pair(r)
        elif k < .9:
            ts = [stmt(r, 1), stmt(r, 1)]
        else:
            red = r.choice(REDUCTIONS)
            ts = instance(r, red[:1])
            if r.random() < .5:
                o = narsese(ts[0])
                if o and fits(ts[0]) and len(o) < 300 and not set(o) & set("$#?"):
                    out.append("input %d %d %s | %s" % (value(r) + (txt(ts[0]), o)))
                continue
            if r.random() < .5:     # conclusions to be reduced
                ts = [[";", ts[0], stmt(r, 0)]]
            else:
                t0 = ts[0]
                ts = [["?", [":", "d", "e"], t0], [":", "d", "e"]]
        if len(ts) == 2 and r.random() < .5:
            ts.reverse()
        if r.random() < .12:
            ts = [noise(r, t, .06) for t in ts]
        if not all(fits(t) for t in ts):
            continue
        now = r.randint(1, 500)
        o = r.choice([-1, now, max(1, now - r.randint(0, 30))])
        f1, c1 = value(r)
        f2, c2 = value(r)
        if r.random() < .3:
            f2 = f1
        s1, s2 = r.sample(range(1, 99), 2)
        out.append("%s %d %d %d %d %d %d %d %d %d %d %d %s" % ("one" if len(ts) == 1 else "dead" if r.random() < .02 else "two", now, o, r.choice([0, 0, 1000, 2500]),
                                                            r.randint(1, 10 ** 6), r.randint(1, 10 ** 6), f1, c1, f2, c2, s1, s2, " ".join(txt(t) for t in ts)))
    return "\n".join(out) + "\n"


def related(r):
    """Statements and rules about the same few things."""
    out = ["!seed %d" % r.randint(1, 10 ** 6), "*motorbabbling=0"]
    n = ["x", "y", "z"]

    def st():
        a, b, c = r.choice(n), r.choice(n), r.choice(n)
        return r.choice(["<%s --> %s>"] * 6 + ["<%s <-> %s>", "<{%s} --> %s>", "<%s --> [%s]>", "(! <%s --> %s>)", "<{%s} --> [%s]>"]) % (a, b) if r.random() < .7 else \
            r.choice(["<(%s * %s) --> %s>", "<(%s | %s) --> %s>", "<%s --> (%s & %s)>", "<(%s - %s) --> %s>", "<%s --> (%s /1 %s)>", "<(%s &  %s) --> %s>", "<%s --> (%s ~ %s)>"]) % (a, b, c)

    def general():
        a, b, c = r.choice(n), r.choice(n), r.choice(n)
        return r.choice(["<<$1 --> %s> ==> <$1 --> %s>>", "<<%s --> $1> ==> <%s --> $1>>", "<<$1 --> %s> <=> <$1 --> %s>>", "(<#1 --> %s> && <#1 --> %s>)"]) % (a, b) if r.random() < .6 else \
            "<(<$1 --> %s> && <$1 --> %s>) ==> <$1 --> %s>>" % (a, b, c)
    while len(out) < 26:
        k = r.random()
        t = " :|:" if r.random() < .35 else ""
        if k < .5:
            out.append("%s.%s%s" % (st(), t, tv(r, .4)))
        elif k < .62:
            out.append("%s.%s" % (general(), tv(r, .4)))
        elif k < .74:
            out.append(r.choice(["<%s ==> %s>.", "<%s <=> %s>.", "(%s && %s).", "(%s || %s).", "<%s ==> (! %s)>."]) % (st(), st()) + t)
        elif k < .8:
            out.append("<(%s && %s) ==> %s>." % (st(), st(), st()))
        else:
            out.append(r.choice(["1", "3", "8", "19"]))
    return "\n".join(out) + "\n"


def main():
    chk = Check("C09")
    cfg = open(os.path.join(SPEC, "InferenceModel.cfg")).read()
    if THOROUGH:
        cfg = cfg.replace("OneValue", "SomeValues").replace('{"?", ";"}', '{"?", "^", ";", "_"}')
    r = tlc("InferenceModel", cfg=cfg, workers=JOBS, timeout=3000)
    if r.violated:
        raise CheckError("design model violated:\n" + r.error_text())
    chk.model(r, "InferenceModel: all pairs of statements of a small language")
    exe = build("rules", ["rules.c", "vlog.c"], config=CONFIGS["small"])

    def record(s):
        rc, o, e = run([exe], stdin=s, timeout=120)
        return [l for l in o.split("\n") if l] if rc == 0 else "exit %s %s" % (rc, (o + e)[-300:])
    sc = [script(rng("c09", k), 250 if not THOROUGH else 1000, k * 13) for k in range(32 if not THOROUGH else 400)]
    chk.sample(sc[0].split("\n")[0][:200])
    validate_scripts(chk, "RulesTrace", record, sc, defer=True)
    kinds, parts = "Cycle,Pop,Inference,Single,Pair,AddEvent,Reset", "con,slot"
    system_traces(chk, "InferenceTrace", kinds, parts, "c09", 24, 800, cfgs=("tiny", "cramped", "small", "roomy"), make=lambda r: related(r) if r.random() < .6 else ona_script(r))
    chk.finish()
