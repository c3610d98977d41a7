"""C04 Concept memory: Concepts.tla exhaustively, and concept memory with its indexes in recorded runs against it."""
from ona import *


def crowded(r):
    """Many different terms, some of them deep, so that concepts are forgotten and come back."""
    atoms = ["a%d" % k for k in range(r.choice([4, 9, 30]))]

    def t(d):
        if d == 0 or r.random() < .25:
            return r.choice(atoms)
        return "(%s %s %s)" % (t(d - 1), r.choice(["*", "*", "&"]), t(d - 1))
    out = ["!seed %d" % r.randint(1, 10 ** 6)]
    waits = [1, 2, 7] if r.random() < .7 else [1, 50, 200, 300, 400]
    for _ in range(30):
        k = r.random()
        s = "<%s --> %s>" % (t(r.choice([0, 0, 1, 2, 3])), t(r.choice([0, 0, 1])))
        out.append(s + "." + (" :|:" if r.random() < .6 else "") if k < .7 else s + "!" + " :|:" if k < .8 else s + "?" if k < .85 else
                   "<%s =/> %s>." % (r.choice(atoms), r.choice(atoms)) if k < (.92 if len(waits) == 3 else .88) else str(r.choice(waits)))
    if r.random() < .15:
        out.insert(r.randint(5, 25), "!reset")
    return "\n".join(out) + "\n"


def main():
    chk = Check("C04")
    r = tlc("Concepts", workers=JOBS)
    if r.violated:
        raise CheckError("design model violated:\n" + r.error_text())
    chk.model(r, "Concepts capacity 2, 4 terms, 6 identities")
    system_traces(chk, "ConceptsTrace", "Conceptualize,Forgetting,Reset", "con,use,view", "c04", 24, 800, cfgs=("tiny", "small"))
    system_traces(chk, "ConceptsTrace", "Conceptualize,Forgetting,Reset", "con,use,view", "c04b", 24, 800, cfgs=("tiny", "small"), make=crowded)
    chk.assumptions = ["atoms below the fifth level of a term are not indexed, as declared by UNIFICATION_DEPTH", "runs with at most 120 concepts"]
    chk.finish()
