"""C05 Learned links: Links.tla exhaustively, the real table's calls and all tables in recorded runs against it."""
from ona import *


def scripts():
    out = []
    for k in range(60 if not THOROUGH else 1500):
        r = rng("c05", k)
        s, n = ["init"], 0
        names = ["a%d" % i for i in range(r.choice([2, 4, 7]))]
        for _ in range(60):
            if r.random() < .08 and n:
                s.append("rem %d" % r.randint(0, min(n, 1) - 1 if r.random() < .5 else 0))
            else:
                n += 1
                c = r.choice(["0.9", "0.5", "0.45", "0.3", "0.1", "0.01", "0.7", "0.31", "0.99", "0.6180339"])
                f = r.choice(["1.0", "0.0", "0.5", "0.9", "0.75", "0.2", "0.33333"])
                st = r.sample(range(1, 60), 3)
                s.append("add %s %s %s %s %d %d %d %d %d" % (r.choice(names), f, c, r.choice(["0", "1", "2", "5.5", "20", "0.25"]), st[0], st[1] if r.random() < .6 else 0, 0 if r.random() < .5 else st[2], r.randint(0, 99), r.randint(0, 7)))
                if st and s[-1].split()[6] == "0":   # no gaps in the evidence
                    w = s[-1].split()
                    w[7] = "0"
                    s[-1] = " ".join(w)
        out.append("\n".join(s) + "\n")
    return out


def main():
    chk = Check("C05")
    r = tlc("Links", workers=JOBS)
    if r.violated:
        raise CheckError("design model violated:\n" + r.error_text())
    chk.model(r, "Links capacity 2, 2 antecedents, 2 cells")
    exe = build("table", ["table.c", "vlog.c", "stub.c"], config=dict(CONCEPTS_MAX=16, TABLE_SIZE=4, STAMP_SIZE=4))

    def rec(s):
        rc, o, e = run([exe], stdin=s, timeout=60)
        return "exit %s %s" % (rc, (o + e)[-300:]) if rc != 0 else o.strip().split("\n")
    sc = scripts()
    chk.sample(sc[0][:200])
    validate_scripts(chk, "TableTrace", rec, sc)
    system_traces(chk, "LinksTrace", "Conceptualize,Table,NewBelief,NegativeConfirmation,Reset", "con,link", "c05", 24, 800,
                  subst=dict(PROPERTY='"C05"'))
    chk.finish()
