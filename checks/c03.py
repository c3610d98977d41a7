"""C03 Bounded priority queues keep the best items: BoundedQueue.tla, replayed and recorded on PriorityQueue.c."""
from common import *


def scripts():
    out = []
    n = 120 if not THOROUGH else 1500
    for k in range(n):
        r = rng("c03", k)
        s = []
        for _ in range(r.choice([1, 2])):
            cap = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 15, 16, 17, 20, 31, 32, 40] + ([100, 400] if k % 7 == 0 else []))
            hi = r.choice([1, 2, 3, 5, 10, 100, 1000])
            s.append("init %d" % cap)
            mode = r.choice(["mixed", "fill", "drain", "full", "waves"])
            for i in range(r.randint(60, 160 + 2 * cap)):
                if mode == "waves":
                    w = [8, 1, 1, 0.2] if (i // (cap + 3)) % 2 == 0 else [1, 6, 6, 0.2]
                else:
                    w = {"mixed": [4, 2, 2, 1], "fill": [8, 1, 1, 0.5], "drain": [3, 3, 3, 1], "full": [12, 0.5, 0.5, 0.5]}[mode]
                o = r.choices(["push", "popmax", "popmin", "change"], w)[0]
                if o == "push":
                    s.append("push %d" % r.randint(0, hi))
                elif o == "change":
                    how = r.random()
                    for _ in range(r.randint(1, cap) if how < 0.7 else 0):
                        s.append("set %d %d" % (r.randint(0, cap), r.randint(0, hi)))
                    s.append("rebuild")
                else:
                    s.append(o)
        out.append("\n".join(s) + "\n")
    return out


def tlc_behaviours(n, depth):
    """Behaviours of the specification (TLC simulation of BoundedQueueGen), as scripts."""
    r = tlc("BoundedQueueGen", args=["-simulate", "num=%d" % n, "-depth", str(depth), "-seed", str(SEED)], workers=1)
    out = []
    seen = set()
    for p in r.prints:  # TLC prints every successor it considered: keep one per behaviour
        k = "\n".join(p[:-1])
        if k not in seen:
            seen.add(k)
            out.append("\n".join(p) + "\n")
    return out


def main():
    chk = Check("C03")
    r = tlc("BoundedQueue", workers=JOBS)
    if r.violated:
        raise CheckError("design model violated:\n" + r.error_text())
    chk.model(r, "BoundedQueue Cap=3 MaxPrio=3")
    exe = build("pq", ["pq.c", "stub.c"])

    def record(s):
        rc, o, e = run([exe], stdin=s, timeout=60)
        if rc != 0:
            return "exit %s %s" % (rc, (o + e)[-300:])
        return o.strip().split("\n")
    gen = tlc_behaviours(150 if not THOROUGH else 2000, 60)
    chk.count("spec_behaviours_replayed", len(gen))
    sc = scripts() + gen
    chk.sample(sc[0][:200])
    chk.sample(gen[0][:200] if gen else "")
    validate_scripts(chk, "BoundedQueueTrace", record, sc)
    chk.assumptions = ["priorities are integers in the replay; ordering of doubles is the same comparison",
                       "in-place priority changes are followed by a rebuild before the next operation, as the reasoner does"]
    chk.finish()
