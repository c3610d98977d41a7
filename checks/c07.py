"""C07 Narsese text: GrammarModel exhaustively; Grammar.tla on the real parser and printer (component) and on the inputs of recorded runs."""
from ona import *
import c09

INFIX = ["-->", "=/>", "<=>", "||", "&/", "|->", "==>", "&&", "<->", "/1", "/2", "\\1", "\\2", "*", "&", "|", "-", "~"]
PREFIX = INFIX + ["+", "="]
STATEMENT = {"-->", "=/>", "<=>", "|->", "==>", "<->"}
ATOMS = ["a", "b", "c", "dog", "SELF", "tim", "a1", "b_2", "x_0.5", "5", "42", "0.25", "Aardvark", "^left", "^go", "M", "A", "S", "thirty_one_characters_long_atom", "thirty_one_characters_long_atoN", "under_score", "Z"]
VARS = ["$1", "$2", "$3", "#1", "#2", "?1", "?2", "$x", "$y", "#any", "?what", "$9", "#7", "?4", "$abc"]


def tree(r, d, vs):
    """A random term: an atom, or [copula, part] or [copula, part, part] (sets: "{", "[")."""
    if d == 0 or r.random() < .18:
        return r.choice(vs) if r.random() < .3 else r.choice(ATOMS) if r.random() < .8 else r.choice("pqrstuvw") + str(r.randint(0, 99))
    k = r.random()
    if k < .15:
        return [r.choice("{[")] + [tree(r, d - 1, vs) for _ in range(r.choice([1, 1, 2]))]
    if k < .22:
        return [r.choice(["--", "*", "+", "=", "!"]), tree(r, d - 1, vs)]
    return [r.choice(INFIX) if k < .6 else r.choice(["-->", "-->", "==>", "=/>", "*", "&/", "&&", "<->"]), tree(r, d - 1, vs), tree(r, d - 1, vs)]


def places(t, i=1):
    if isinstance(t, str):
        return [i]
    return [i] + places(t[1], 2 * i) + (places(t[2], 2 * i + 1) if len(t) > 2 else [2 * i + 1])


def text(r, t):
    """One of the ways to write the term."""
    sp = lambda: r.choice([" ", " ", " ", "  "])
    if isinstance(t, str):
        return t
    p = [text(r, x) for x in t[1:]]
    o = r.choice(["", "", "", " "])
    if t[0] in "{[":
        return t[0] + o + r.choice([sp, lambda: ",", lambda: ", "])().join(p) + o + {"{": "}", "[": "]"}[t[0]]
    if len(p) == 1:
        return "(" + o + t[0] + r.choice([sp(), ",", " , "]) + p[0] + o + ")"
    if r.random() < .3:
        return "(" + o + r.choice([lambda: t[0] + "," + p[0] + "," + p[1], lambda: t[0] + sp() + p[0] + sp() + p[1], lambda: t[0] + ", " + p[0] + ", " + p[1]])() + o + ")"
    a, b = ("<", ">") if (t[0] in STATEMENT and r.random() < .8) or r.random() < .1 else ("(", ")")
    return a + o + p[0] + sp() + t[0] + sp() + p[1] + o + b


def term(r, depth=None):
    while True:
        vs = r.sample(VARS, r.randint(1, 6))
        t = tree(r, depth or r.choice([0, 1, 2, 2, 3, 3, 4, 5]), vs)
        if max(places(t)) <= 63:
            return t


def decimal(r):
    return r.choice(["0", "1", "0.5", "1.0", "0.0", "0.99", ".25", "0.333333", "0.1234567"]) if r.random() < .7 else "%.*f" % (r.randint(1, 6), r.random())


def truth(r):
    k = r.random()
    return "" if k < .4 else " {%s%s%s}" % (decimal(r), r.choice([" ", "  "]), decimal(r)) if k < .8 else " %%%s;%s%%" % (decimal(r), decimal(r)) if k < .92 else " %%%s%%" % decimal(r)


def offset(r, none=.75):
    return "" if r.random() < none else "dt=%s " % r.choice(["1", "2.5", "-3", "0", "0.0", "100", "12.125", "2.000000", "7.2500000000000000000000000000000000000001", "-0.5", "1500.75", "0.375", "3.999", "-7.001", "41.126"])


def sentence(r):
    return offset(r) + text(r, term(r)) + r.choice([".", ".", "!", "?"]) + r.choice(["", "", " :|:", " :\\:", " :/:"]) + truth(r)


def renamed(r, t, m):
    if isinstance(t, str):
        if t[0] in "$#?" and len(t) > 1:
            if t not in m:
                m[t] = t[0] + r.choice("uvwxyz") + str(len(m))
            return m[t]
        return t
    return [t[0]] + [renamed(r, x, m) for x in t[1:]]


def changed(r, t):
    """A term that differs a little."""
    if isinstance(t, str):
        return r.choice(ATOMS + VARS)
    k = r.randint(0, len(t))
    if k == len(t):
        return [t[0]] + t[1:][::-1]
    if k == 0:
        if t[0] in "{[":
            return [{"{": "[", "[": "{"}[t[0]]] + t[1:]
        return [r.choice(INFIX), t[1], t[2]] if len(t) > 2 else [r.choice(["--", "*", "+", "="]), t[1]]
    return t[:k] + [changed(r, t[k])] + t[k + 1:]


def texts(r, n):
    out = []
    for _ in range(r.choice([0, 0, 30, 200])):
        out.append("A other%d" % r.randint(0, 500))
    for _ in range(n):
        k = r.random()
        if k < .35:
            out.append("T " + text(r, term(r)))
        elif k < .7:
            out.append("S " + sentence(r))
        elif k < .9:
            t = term(r)
            u = renamed(r, t, {}) if r.random() < .5 else changed(r, t)
            if max(places(u)) <= 63:
                out.append("E %s\t%s" % (text(r, t), text(r, u)))
        elif k < .97:
            t = term(r) if r.random() < .4 else tree(r, r.choice([5, 6, 7, 9]), ["$1"])
            for _ in range(r.choice([0, 1, 2, 5])):    # nested on one side
                t = [r.choice(["*", "&/", "-->"]), t, "a"] if r.random() < .5 else ["*", "b", t]
            x = text(r, t)
            if len(x) < 2000:    # the limit for text is 2148
                out.append("X " + x)
        elif k < .985:
            out.append("H %d\t%s" % (r.randint(0, 10 ** 6), text(r, term(r))))
        else:
            out.append("I")
    return "\n".join(out) + "\n"


def parsed(exe, s):
    rc, o, e = run([exe], stdin=s, timeout=120)
    if rc != 0:
        return "exit %s: %s" % (rc, (o + e)[-1500:])
    return [x for x in o.split("\n") if x.startswith("{")]


def said(r):
    """Inputs of all forms for the whole system."""
    out = ["!seed %d" % r.randint(1, 10 ** 6), "*motorbabbling=0"]
    plain = [a for a in ATOMS if a[0] not in "^0123456789x" and a not in ("A", "M", "S", "Z")]

    def simple(d, vs):
        t = tree(r, d, vs)
        def fix(t):
            if isinstance(t, str):
                return t if t in plain or t in vs else r.choice(plain)
            return [t[0]] + [fix(x) for x in t[1:]]
        return fix(t)
    while len(out) < 25:
        k = r.random()
        d = r.choice([1, 2, 2, 3])
        vs = ["$1", "$2", "$x", "#1", "#any"] if r.random() < .5 else ["$a", "$b"]
        t = [r.choice(["-->", "-->", "<->", "==>", "=/>", "=/>", "*", "&&", "<=>", "--"]), simple(d, vs), simple(d, vs)]
        if t[0] == "--":
            t = t[:2]
        if r.random() < .15:
            t = r.choice(plain)
        if t[0] == "=/>" and not isinstance(t, str):
            t[1], t[2] = [["-->", simple(1, vs[:2]), simple(0, vs[:2])] for _ in range(2)]
        if max(places(t)) > 31:
            continue
        s = text(r, t)
        if r.random() < .12:
            out.append(s + "?" + r.choice(["", " :|:", " :\\:", " :/:"]))
            continue
        goal = r.random() < .2 and t[0] != "=/>"
        now = " :|:" if goal or (t[0] not in ("=/>", "==>", "<=>") and r.random() < .5) else ""
        out.append((offset(r, .25) if t[0] == "=/>" and not now else "") + s + ("!" if goal else ".") + now + r.choice(["", "", " {%s %s}" % (decimal(r), r.choice(["0.9", "0.5", "0.01", "0.99"])), " %1.0;0.9%", " %0.5%"]))
    return "\n".join(out) + "\n"


def main():
    chk = Check("C07")
    r = tlc("GrammarModel", workers=JOBS)
    if r.violated:
        raise CheckError("design model violated:\n" + r.error_text())
    chk.model(r, "GrammarModel: all small terms, written and read")
    exe = build("parse", ["parse.c", "vlog.c", "stub.c"], defines=["-fsanitize=address", "-g"], ldflags=["-fsanitize=address"])
    sc = [texts(rng("c07", k), 120) for k in range(400 if THOROUGH else 24)]
    chk.sample(sc[0][:300])
    validate_scripts(chk, "GrammarTrace", lambda s: parsed(exe, s), sc, defer=True)
    system_traces(chk, "InputTrace", "Line,Input,Reset", "out", "c07i", 18, 600, cfgs=("tiny", "roomy"), make=said)
    chk.finish()
