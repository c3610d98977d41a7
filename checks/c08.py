"""C08 Unification and substitution: Unify.tla on the real Variable.c and Term.c."""
from ona import *

OPS2 = [":", "=", "*", "$", "+", ";", "?", "&", "|", "/", "%"]
VARS = ["$1", "$2", "$3", "#1", "#2", "?1", "?2", "$9"]
ATOMS = ["a", "b", "c", "d", "n1", "n2", "n3", "m1", "m2", "^op", "SELF"]


def gen(r, depth, pv=.3):
    k = r.random()
    if depth == 0 or k < .25:
        return r.choice(VARS) if r.random() < pv else r.choice(ATOMS)
    if k < .35:
        return ["\"" if r.random() < .7 else "'", gen(r, depth - 1, pv), "@"]
    if k < .4:
        return ["!", gen(r, depth - 1, pv)]
    return [r.choice(OPS2), gen(r, depth - 1, pv), gen(r, depth - 1, pv)]


def fits(t, i=0):
    return i < 64 and (isinstance(t, str) or all(fits(x, 2 * i + 1 + k) for k, x in enumerate(t[1:])))


def leaves(t):
    return {t} if isinstance(t, str) else set().union(*[leaves(x) for x in t[1:]])


def subst(t, s):
    return s.get(t, t) if isinstance(t, str) else [t[0]] + [subst(x, s) for x in t[1:]]


def tree(r, depth, pv=.3):
    while True:
        t = gen(r, depth, pv)
        if fits(t):
            return t


def spread(r, t):
    """A term the pattern t matches or nearly matches."""
    s = {v: tree(r, r.choice([0, 0, 1, 2]), r.choice([0, .2, .5])) for v in leaves(t) if v in VARS}
    if r.random() < .15 and s:
        s[r.choice(sorted(s))] = "@"
    if r.random() < .2:
        s.update({v: v for v in s if r.random() < .5})
    u = subst(t, s)

    def noise(x):
        if r.random() < .04:
            return tree(r, 1)
        if isinstance(x, str):
            return {"n1": r.choice(["n1", "n2", "n3"]), "m1": r.choice(["m1", "m2"])}.get(x, x) if r.random() < .4 else x
        return [x[0]] + [noise(y) for y in x[1:]]
    if r.random() < .5:
        u = noise(u)
    return u if fits(u) else spread(r, t)


def txt(t):
    return t if isinstance(t, str) else "( " + t[0] + " " + " ".join(txt(x) for x in t[1:]) + " )"


def script(r, n):
    out = ["dist 1.0"] + ["num %s %s %s" % x for x in (("n1", "x", "0.1"), ("n2", "x", "0.55"), ("n3", "x", "1.2"), ("m1", "y", "0.1"), ("m2", "y", "0.9"))]
    for _ in range(n):
        if r.random() < .04:
            out.append("dist %s" % r.choice(["0.5", "1.0", "2.0"]))
        k = r.random()
        if k < .8:
            p = tree(r, r.choice([1, 2, 2, 3, 3, 4]))
            if r.random() < .08:     # substitution at the size limit
                for _ in range(r.randint(1, 4)):
                    p = [r.choice(OPS2), p, r.choice(VARS + ATOMS)] if fits(["*", p, "a"]) and r.random() < .5 else [r.choice(OPS2), "a", p] if fits(["*", "a", p]) else p
            s = spread(r, p) if r.random() < .85 else tree(r, 3)
            x = tree(r, r.choice([1, 2, 3, 4]), .5)
            out.append("unify %s %s %s %s %s %s" % (r.choice(["a", "a", "u", "q"]), r.choice(["1.0", "0.5", "0.8"]), r.choice(["0.9", "0.9", "0", "0.45"]), txt(p), txt(s), txt(x)))
        else:
            a = tree(r, r.choice([0, 1, 2, 3, 4]))
            b = a if r.random() < .2 else spread(r, a) if r.random() < .5 else tree(r, 2)
            out.append("terms %d %s %s" % (r.choice([0, 1, 2, 3, 4, 5, 6, 7, r.randint(0, 63), r.randint(0, 63)]), txt(a), txt(b)))
    return "\n".join(out) + "\n"


def main():
    chk = Check("C08")
    r = tlc("UnifyModel", workers=JOBS)
    if r.violated:
        raise CheckError("design model violated:\n" + r.error_text())
    chk.model(r, "UnifyModel: all patterns and terms of depth 2")
    exe = build("unify", ["unify.c", "vlog.c", "stub.c"])

    def record(s):
        rc, o, e = run([exe], stdin=s, timeout=60)
        return [l for l in o.split("\n") if l] if rc == 0 else "exit %s %s" % (rc, (o + e)[-300:])
    sc = [script(rng("c08", k), 400 if not THOROUGH else 1500) for k in range(16 if not THOROUGH else 120)]
    chk.sample(sc[0].split("\n")[6][:200])
    validate_scripts(chk, "UnifyTrace", record, sc)
    chk.finish()
