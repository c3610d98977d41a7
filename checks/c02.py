"""C02 Beliefs: Beliefs.tla (exhaustive for one concept), BeliefsTrace.tla on recorded runs of the whole system."""
from ona import *


def main():
    chk = Check("C02")
    r = tlc("Beliefs", workers=JOBS)
    if r.violated:
        raise CheckError("design model violated:\n" + r.error_text())
    chk.model(r, "Beliefs MaxTime=5 MaxInputs=3")
    system_traces(chk, "BeliefsTrace", "NewBelief,Activate,Goals,Anticipate,AddEvent,Input,Reset", "slot,con", "c02", 96, 1600, make=make)
    chk.assumptions = ["real numbers are compared in units of 1e-8 with tolerance 6e-6; where two confidences differ by less, both choices are allowed unless they are exactly equal"]
    chk.finish()


def same_time(r, n=24):
    """Many beliefs about few terms, also at the same time, with dependent variables and repeated evidence."""
    out = ["!seed %d" % r.randint(1, 10 ** 6)]
    terms = r.sample(["a", "b", "(a &/ b)", "(<#1 --> x> && <#1 --> y>)", "(<#1 --> x> &/ <#1 --> y>)", "<a --> b>", "<a <-> b>", "<<$1 --> x> ==> <$1 --> y>>"], 3)
    for _ in range(n):
        t = r.choice(terms)
        k = r.random()
        if k < .75:
            if r.random() < .5 and len(out) > 1:
                out.append("*concurrent")
            out.append("%s. :|:%s" % (t, tv(r, .7)))
        elif k < .9:
            out.append("%s.%s" % (t, tv(r, .7)))
        else:
            out.append(r.choice(["1", "2", "5"]))
    return "\n".join(out) + "\n"


def make(r):
    return same_time(r) if r.random() < .3 else script(r, n=r.choice([15, 30, 40]))
