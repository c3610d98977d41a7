"""C13 Executions: what each execution does, and that nothing else executes, in recorded runs (DecisionTrace)."""
from ona import *
import decisions as d


def main():
    chk = Check("C13")
    r = tlc("DecisionModel", workers=JOBS)
    if r.violated:
        raise CheckError("design model violated:\n" + r.error_text())
    chk.model(r, "DecisionModel: 2 goals, 2 operations, 4 links, one of them general")
    system_traces(chk, "DecisionTrace", d.KINDS, d.PARTS, "c13", 40, 1500, cfgs=("tiny", "small"), make=d.deciding, subst=dict(PROPERTY='"C13"'))
    system_traces(chk, "DecisionTrace", d.KINDS, d.PARTS, "c13b", 16, 600, cfgs=("cramped", "small"), subst=dict(PROPERTY='"C13"'))
    chk.finish()
