"""C10 The truth calculus: Truth.tla's laws on a grid, and the real functions against it on a grid and on random arguments."""
from ona import *

FS = [0, 1, 10 ** 7, 25 * 10 ** 6, 33333333, 5 * 10 ** 7, 50000001, 75 * 10 ** 6, 99 * 10 ** 6, 10 ** 8]
CS = [0, 1, 10 ** 6, 10 ** 7, 3 * 10 ** 7, 45 * 10 ** 6, 9 * 10 ** 7, 98999999, 99 * 10 ** 6]


def value(r):
    f = r.choice(FS) if r.random() < .3 else r.randint(0, 10 ** 8)
    c = r.choice(CS) if r.random() < .3 else r.randint(0, 99 * 10 ** 6) if r.random() < .8 else r.randint(0, 2 * 10 ** 6)
    return "%d %d" % (f, c)


def time(r):
    k = r.random()
    t0 = r.randint(1, 1000)
    if k < .15:
        t0 = -1
    return "%d %d" % (t0, r.choice([t0, t0 + 1, t0 - 1]) if t0 > 1 and r.random() < .3 else max(1, t0 + r.randint(-30, 30)) if r.random() < .7 else r.randint(1, 2000))


def main():
    chk = Check("C10")
    r = tlc("TruthModel", workers=JOBS)
    if r.violated:
        raise CheckError("design model violated:\n" + r.error_text())
    chk.model(r, "TruthModel: all pairs of a grid of truth values")
    exe = build("truth", ["truth.c", "vlog.c", "stub.c"])

    def record(s):
        rc, o, e = run([exe], stdin=s, timeout=60)
        return [l for l in o.split("\n") if l] if rc == 0 else "exit %s %s" % (rc, (o + e)[-300:])
    g = [(f1, c1, f2, c2) for f1 in FS for c1 in CS for f2 in FS for c2 in CS]
    R = rng("c10")
    lines = ["%d %d %d %d %s" % (q + (time(R),)) for q in g] + ["%s %s %s" % (value(R), value(R), time(R)) for _ in range(8000 if not THOROUGH else 200000)]
    lines += ["%s %s %s" % (v, v, time(R)) for v in (value(R) for _ in range(300))]
    sc = ["\n".join(lines[k:k + 1000]) + "\n" for k in range(0, len(lines), 1000)]
    chk.sample(lines[-1])
    validate_scripts(chk, "TruthTrace", record, sc, defer=True)
    chk.finish()
