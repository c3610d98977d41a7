"""C24 Generalization: Generalize.tla on the real functions."""
from ona import *

ATOMS = ["a", "b", "c", "d", "SELF"]
VARS = ["$1", "#1", "$2", "#2", "?1", "#3", "$3"]


def part(r, d=1):
    k = r.random()
    if d == 0 or k < .5:
        return r.choice(ATOMS) if r.random() < .88 else r.choice(VARS)
    if k < .6:
        return [r.choice("\"'"), part(r, 0), "@"]
    if k < .66:
        return [r.choice("\"'"), [".", part(r, 0), part(r, 0)], "@"] if r.random() < .5 else [r.choice("\"'"), part(r, 0), [".", part(r, 0), "@"]] if r.random() < .5 else [r.choice("\"'"), part(r, 0), part(r, 0)]
    if k < .8:
        return ["*", part(r, d - 1), part(r, d - 1)]
    if k < .93:
        return [r.choice("/\\%#"), part(r, d - 1), part(r, d - 1)]
    return [r.choice("&|-~"), part(r, d - 1), part(r, d - 1)]


def stmt(r):
    k = r.random()
    if k < .08:
        return r.choice(["a", "b", "^left", "#1"])
    if k < .16:
        return [":", ["*", ["\"", "SELF", "@"], part(r, 0)], r.choice(["^left", "^right"])]
    if k < .21:
        return ["'", part(r, 0), r.choice(["@", part(r, 0)])]
    if k < .27:
        return ["!", stmt(r)]
    return [r.choice([":", ":", ":", "=", ","]), part(r, r.choice([0, 1, 1, 2])), part(r, r.choice([0, 0, 1, 2]))]


def side(r, d=2):
    if d == 0 or r.random() < .6:
        return stmt(r)
    return [r.choice(["+", "+", ";", ";", "_"]), side(r, d - 1), side(r, r.choice([0, d - 1]))]


def fits(t, i=0):
    return i < 64 and (isinstance(t, str) or all(fits(x, 2 * i + 1 + k) for k, x in enumerate(t[1:])))


def txt(t):
    return t if isinstance(t, str) else "( " + t[0] + " " + " ".join(txt(x) for x in t[1:]) + " )"




def script(r, n):
    out = []
    while len(out) < n:
        if r.random() < .6:
            t = [r.choice("$$?^"), side(r), side(r, r.choice([0, 1]))]
            o = "imp %d %d " % (r.randint(0, 1), r.choice([0, 0, 1, 2, 3]))
        else:
            t = [";", side(r), side(r)]
            o = "conj %d 0 " % r.randint(0, 1)
        if r.random() < .08:   # many different atoms on both sides
            xs = [r.choice("abcdefghijkl") for _ in range(4)]
            ys = xs[:] if r.random() < .5 else [r.choice("abcdefghijkl") for _ in range(4)]
            q = lambda v: [":", ["*", ["*", v[0], v[1]], ["*", v[2], v[3]]], r.choice("mn")]
            s = lambda v: [":", ["*", v[0], v[1]], v[2]]
            t = [t[0], q(xs), q(ys)] if r.random() < .5 else [t[0], ["+", s(xs), s([r.choice("mnop") for _ in range(3)])], ["+", s(ys), s([r.choice("mnop") for _ in range(3)])]]
        if r.random() < .04:
            q4 = lambda v: ["*", ["*", v[0], v[1]], ["*", v[2], v[3]]]
            v = list("abcdefghijkl")
            r.shuffle(v)
            w = v[:4] + v[4:8]
            t = [t[0], [":", q4(v[:4]), q4(v[4:8])], [":", q4(v[:4]), q4(v[4:8])]]
            if r.random() < .5:
                t = [t[0], [":", ["*", q4(v[:4]), q4(v[4:8])], "m"], [":", ["*", q4(v[4:8]), q4(v[:4])], "m"]]
            if not fits(t):
                continue
        if fits(t):
            out.append(o + txt(t))
    return "\n".join(out) + "\n"


def main():
    chk = Check("C24")
    r = tlc("GeneralizeModel", workers=JOBS)
    if r.violated:
        raise CheckError("design model violated:\n" + r.error_text())
    chk.model(r, "GeneralizeModel: implications and conjunctions of small statements")
    exe = build("general", ["general.c", "vlog.c", "stub.c"])

    def record(s):
        rc, o, e = run([exe], stdin=s, timeout=60)
        return [l for l in o.split("\n") if l] if rc == 0 else "exit %s %s" % (rc, (o + e)[-300:])
    sc = [script(rng("c24", k), 300 if not THOROUGH else 1500) for k in range(16 if not THOROUGH else 160)]
    chk.sample(sc[0].split("\n")[0][:200])
    validate_scripts(chk, "GeneralizeTrace", record, sc, defer=True)
    chk.finish()
