"""C16 Reset and reproducibility: ResetModel exhaustively; pairs of recorded runs against ResetTrace."""
from ona import *
import c15, c17, decisions, learning, predictions

KINDS, PARTS = "Line,Reset", "con,slot,link,q,ring,use,sel,view,set,out"
LISTINGS = ["*concepts", "*cycling_belief_events", "*cycling_goal_events", "*stats", "*opconfig", "*inverted_atom_index", "<x --> ?1>?", "?1? :|:", "<?1 =/> ?2>?"]
MARK = "//mark"
KEPT = re.compile(r"\*(volume|anticipationconfidence|decisionthreshold|similaritydistance|babblingops|motorbabbling|questionpriming)=")


def lines_of(r, n):
    k = r.random()
    make = c17.timing if k < .25 else decisions.deciding if k < .4 else predictions.predicting if k < .55 else learning.experience if k < .65 else c15.asking if k < .8 else (lambda r: script(r, n=n))
    return [x for x in make(r).rstrip("\n").split("\n") if not x.startswith(("!seed", "!babble", "!reset", "*reset"))]


def spiced(r, lines, history):
    out = []
    for x in lines:
        if history and x.startswith("!fail"):
            continue
        out.append(x)
        shared = x.startswith("*concurrent")
        if r.random() < .12 and not shared:
            out.append(r.choice(LISTINGS))
        if r.random() < .1 and not shared:
            out.append(r.choice(["*volume=%d" % r.choice([0, 20, 50, 100]), "*anticipationconfidence=0.0%d" % r.randint(1, 5), "*decisionthreshold=0.%d" % r.randint(51, 70), "*similaritydistance=%d" % r.randint(1, 9),
                                 "*babblingops=%d" % r.randint(1, 4), "*motorbabbling=0.%d" % r.randint(0, 9), "*questionpriming=0.%d" % r.randint(0, 9),
                                 "*stampid=%d" % r.randint(100, 999)] + (["*stampimport=[%d,%d]" % (r.randint(1, 9), r.randint(20, 30)), "*setvalue 0.%d 10 x" % r.randint(1, 9), "*space 4 y",
                                 "*restrictedconceptcreation=true", "*restrictedconceptcreation=false"] if history else ["*setvalue 0.%d 10 x" % r.randint(1, 9)])))
    if history and r.random() < .3:
        out[:0] = r.choice([["*setopname 1 ^op1"], ["*setopname 1 ^right", "*setoparg 1 1 x"], ["*setopname 2 ^go", "*setoparg 2 1 x", "*setoparg 2 2 y"], ["*setoparg 4 10 x", "*setoparg 3 1 y"], ["*setoparg 4 1 {SELF}"]])
    if history and r.random() < .4:
        out.append("*stampimport=[%d,%d]" % (r.randint(1, 9), r.randint(20, 30)))    # for an input that does not come
    if history and r.random() < .3:
        out.append("*setopstdin %d" % r.randint(1, 4))
    return out


def reset_script(r):
    return "\n".join(spiced(r, lines_of(r, r.choice([10, 30, 60])), True) + ["*reset", "!seed %d" % r.randint(1, 10 ** 6), MARK] + spiced(r, lines_of(r, 20), False) + LISTINGS) + "\n"


def fresh_part(s):
    ls = s.rstrip("\n").split("\n")
    cut = ls.index("*reset")
    return "\n".join(["//start"] + [x for x in ls[:cut] if KEPT.match(x)] + ls[cut + 1:]) + "\n"


def split(lines):
    for i, x in enumerate(lines):
        if '"ph":"b"' in x and '"line":"%s"' % MARK in x:
            return lines[:i], lines[i:]
    return lines, []


def pairs(a, b):
    n = max(len(a), len(b))
    end = '{"k":"nothing"}'
    a, b = a + [end] * (n - len(a)), b + [end] * (n - len(b))
    return ['{"m":"pair","a":%s,"b":%s}' % p for p in zip(a, b)]


def reset_pair(exe, s):
    a = record(exe, s, KINDS, PARTS)
    b = record(exe, fresh_part(s), KINDS, PARTS)
    if isinstance(a, str) or isinstance(b, str):
        return a if isinstance(a, str) else b
    ha, ta = split(a[1:])
    hb, tb = split(b[1:])
    return ['{"m":"new"}'] + ['{"m":"a","e":%s}' % x for x in ha] + ['{"m":"b","e":%s}' % x for x in hb] + pairs(ta, tb)


def twin(exe, other, s, pause):
    a = record(exe, s, KINDS, PARTS)
    time.sleep(pause)
    b = record(other, s, KINDS, PARTS)
    if isinstance(a, str) or isinstance(b, str):
        return a if isinstance(a, str) else b
    return ['{"m":"new"}'] + pairs(a[1:], b[1:])


def typed(s):
    return "\n".join(x for x in s.rstrip("\n").split("\n") if not x.startswith("!")) + "\n"


def shell(exe, s):
    rc, o, e = run([exe, "shell"], stdin=s, timeout=60, env=None)
    return "exit %s: %s" % (rc, (o + e)[-300:]) if rc != 0 else o.rstrip("\n").split("\n")


def texts(a, b):
    n = max(len(a), len(b))
    return ['{"m":"text","a":%s,"b":%s}' % (json.dumps(x), json.dumps(y)) for x, y in zip(a + ["(end)"] * (n - len(a)), b + ["(end)"] * (n - len(b)))]


def program(exe, s, pause):
    """The shell program itself: twice the same, and after a reset like newly started (without babbling, as its random state cannot be set)."""
    a = shell(exe, typed(s))
    quiet = "*motorbabbling=0\n" + "\n".join(x for x in typed(s).split("\n") if not x.startswith("*motorbabbling"))
    c, d = shell(exe, quiet), shell(exe, fresh_part(quiet))
    time.sleep(pause)
    b = shell(exe, typed(s))
    for x in (a, b, c, d):
        if isinstance(x, str):
            return x
    cut = lambda x: x[x.index("Comment: mark"):] if "Comment: mark" in x else x
    return ['{"m":"new"}'] + texts(a, b) + texts(cut(c), cut(d))


def main():
    chk = Check("C16")
    r = tlc("ResetModel", workers=JOBS)
    if r.violated:
        raise CheckError("design model violated:\n" + r.error_text())
    chk.model(r, "ResetModel: 6 lines of any kind before and after a reset, beside a newly started system")
    n = 1000 if THOROUGH else 36
    for c in ("tiny", "small", "roomy"):
        exe = recorder(c)
        sc = [reset_script(rng("c16", c, k)) for k in range(n // 3)]
        if c == "tiny":
            chk.sample(sc[0][:300])
        validate_scripts(chk, "ResetTrace", lambda s, exe=exe: reset_pair(exe, s), sc, defer=True)
        other = build("tracep_" + c, ["trace.c", "vlog.c"], config=CONFIGS[c], defines=["-ftrivial-auto-var-init=pattern"])
        sc = [reset_script(rng("c16t", c, k)) for k in range(n // 6)]
        validate_scripts(chk, "ResetTrace", lambda s, exe=exe, other=other: twin(exe, other, s, 1.1), sc, defer=True)
    exe = build("program", [], main=True, hooks=False, opt="-O2")
    sc = [reset_script(rng("c16p", k)).replace("^up", "^left") for k in range(n // 3)]
    validate_scripts(chk, "ResetTrace", lambda s: program(exe, s, 1.1), sc, defer=True)
    chk.finish()
