"""C06 Links to forgotten concepts: Links.tla exhaustively, the use of links in recorded runs against it."""
from ona import *


def crowded(r):
    """Many links and few concepts, so that the antecedents of links are forgotten while links are in use."""
    ev = ["a%d" % k for k in range(r.choice([6, 12, 25]))]
    out = ["!seed %d" % r.randint(1, 10 ** 6), "*motorbabbling=%s" % r.choice(["0", "0.3"])]
    n = r.choice([3, 6])
    links = []
    for _ in range(n):
        a = seq([r.choice(ev)] + ([r.choice(ev)] if r.random() < .3 else []) + ([r.choice(OPS)] if r.random() < .6 else []))
        links.append("<%s %s %s>." % (a, "=/>" if r.random() < .85 else "==>", r.choice(ev)))
    for _ in range(r.choice([0, 1, 3])):
        a, b, c = (r.randint(0, 2) for _ in range(3))
        links.append(r.choice(["<<$1 --> k%d> =/> <$1 --> k%d>>.", "<(<$1 --> k%d> &/ ^left) =/> <$1 --> k%d>>.", "<<$1 --> k%d> ==> <$1 --> k%d>>.", "<<$1 --> k%d> =/> <z --> k%d>>."]) % (a, b))
        n = r.randint(0, 9)
        ev += ["<n%d --> k%d>" % (n, a), "<n%d --> k%d>" % (n, b), "<n%d --> k%d>" % (r.randint(0, 9), c)]
    for _ in range(40):
        k = r.random()
        if k < .25:
            out.append(r.choice(links) + tv(r, .3))
        elif k < .5:
            out.append("%s. :|:" % r.choice(ev))
        elif k < .6:
            out.append("%s. :|:" % r.choice(OPS))
        elif k < .8:
            out.append("%s! :|:" % r.choice(ev))
        elif k < .95:
            out += ["<n%d --> m%d>." % (r.randint(0, 99), r.randint(0, 99)) for _ in range(r.choice([2, 5]))]
        else:
            out.append(str(r.choice([1, 3])))
    return "\n".join(out) + "\n"


def main():
    chk = Check("C06")
    r = tlc("Links", workers=JOBS)
    if r.violated:
        raise CheckError("design model violated:\n" + r.error_text())
    chk.model(r, "Links capacity 2, 2 antecedents, 2 cells")
    kinds = "Conceptualize,Table,NewBelief,NegativeConfirmation,Execute,Goals,Suggest,Anticipate,Subgoal,Predict,Consider,Outcome,Reset"
    system_traces(chk, "LinksTrace", kinds, "con,link", "c06", 16, 400, subst=dict(PROPERTY='"C06"'))
    system_traces(chk, "LinksTrace", kinds, "con,link", "c06b", 96, 1600, cfgs=("cramped", "tiny"), make=crowded, subst=dict(PROPERTY='"C06"'))
    chk.finish()
