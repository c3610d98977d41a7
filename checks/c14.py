"""C14 Sequence goals: Goals.tla exhaustively for a small memory, recorded runs against it."""
from ona import *
import goals


def main():
    chk = Check("C14")
    r = tlc("GoalsModel", workers=JOBS)
    if r.violated:
        raise CheckError("design model violated:\n" + r.error_text())
    chk.model(r, "GoalsModel: 3 elements, 5 concepts, 3 times")
    system_traces(chk, "GoalsTrace", goals.KINDS, "con,slot,link,q", "c14", 32, 1200, cfgs=("tiny", "small"), make=goals.pursuit, subst=dict(PROPERTY='"C14"'))
    system_traces(chk, "GoalsTrace", goals.KINDS, "con,slot,link,q", "c14b", 12, 600, cfgs=("cramped", "tiny", "small"), subst=dict(PROPERTY='"C14"'))
    chk.finish()
