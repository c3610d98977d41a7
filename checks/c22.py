"""C22 Lookup tables and recent-event memory: Lookup.tla on the real HashTable, Stack and OccurrenceTimeIndex."""
from ona import *


def table(r):
    cap = r.choice([1, 2, 3, 5, 8, 20])
    nk = cap + r.choice([0, 1, 3]) + 1
    out = ["init %d %d %d" % (r.choice([1, 2, 3, 7, cap]), cap, r.randint(0, 4))]
    have = set()
    for _ in range(r.randint(30, 120)):
        k = r.randint(0, nk)
        x = r.random()
        if x < .45 and (k in have or len(have) < cap):
            out.append("set %d %d" % (k, r.randint(0, 5)))
            have.add(k)
        elif x < .75 and have:
            k = r.choice(sorted(have))
            out.append("del %d" % k)
            have.discard(k)
        else:
            out.append("get %d" % k)
    return out


def stack(r):
    cap, n, out = r.choice([1, 2, 5, 10]), 0, []
    out.append("stackinit %d" % cap)
    for _ in range(r.randint(10, 40)):
        if n < cap and (n == 0 or r.random() < .55):
            out.append("push %d" % r.randint(0, 20))
            n += 1
        elif n:
            out.append("pop")
            n -= 1
    return out


def ring(r, cap):
    return ["ringinit"] + ["ringadd %d" % r.choice([r.randint(0, 15), 3]) for _ in range(r.randint(cap // 2, 3 * cap + 5))]


def main():
    chk = Check("C22")
    r = tlc("Lookup", workers=JOBS)
    if r.violated:
        raise CheckError("design model violated:\n" + r.error_text())
    chk.model(r, "Lookup 3 keys 3 cells")
    for cap in (1, 3, 16) if not THOROUGH else (1, 2, 3, 5, 16, 64):
        exe = build("lookup%d" % cap, ["lookup.c", "stub.c"], config=dict(CONCEPTS_MAX=24, OCCURRENCE_TIME_INDEX_SIZE=cap))

        def record(s):
            rc, o, e = run([exe], stdin=s, timeout=60)
            return o.strip().split("\n") if rc == 0 else "exit %s %s" % (rc, (o + e)[-300:])
        sc = []
        for k in range(40 if not THOROUGH else 400):
            g = rng("c22", cap, k)
            sc.append("\n".join(table(g) + stack(g) + ring(g, cap)) + "\n")
        chk.sample(sc[0][:200])
        validate_scripts(chk, "LookupTrace", record, sc)
    # the structures as the reasoner uses them: recent-event memory and cell pool in whole-system runs
    system_traces(chk, "RecentTrace", "NewBelief,Sensorimotor,Reset", "con,ring", "c22sys", 32, 400)
    chk.assumptions = ["hash functions return nonnegative values, as all of the system's do; only present keys are deleted, as the reasoner does"]
    chk.finish()
