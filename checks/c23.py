"""C23 Subgoals: Goals.tla on recorded runs in which implications lead from goals to subgoals."""
from ona import *
import goals


def main():
    chk = Check("C23")
    r = tlc("GoalsModel", workers=JOBS)
    if r.violated:
        raise CheckError("design model violated:\n" + r.error_text())
    chk.model(r, "GoalsModel: 3 elements, 5 concepts, 3 times")
    system_traces(chk, "GoalsTrace", goals.KINDS, "con,slot,link,q", "c23", 32, 1200, cfgs=("tiny", "small"), make=goals.subgoaling, subst=dict(PROPERTY='"C23"'))
    system_traces(chk, "GoalsTrace", goals.KINDS, "con,slot,link,q", "c23b", 15, 600, cfgs=("cramped", "tiny", "small"), subst=dict(PROPERTY='"C23"'))
    chk.finish()
