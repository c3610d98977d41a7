"""C01 Evidence is counted once: Evidence.tla (exhaustive), EvidenceTrace.tla on recorded runs of the whole system."""
from ona import *
import c02


def make(r):
    return c02.same_time(r) if r.random() < .15 else script(r, n=r.choice([15, 25, 35]))


def main():
    chk = Check("C01")
    r = tlc("Evidence", workers=JOBS)
    if r.violated:
        raise CheckError("design model violated:\n" + r.error_text())
    chk.model(r, "Evidence StampSize=3 MaxInputs=4 MaxBeliefs=3")
    system_traces(chk, "EvidenceTrace", "Input,AddEvent,NewBelief,Reinforce,Pair,Single,Beliefs,Sensorimotor,Inference,Execute,Goals,GoalSequence,Anticipate,Activate,Table,Pop,Reset",
                  "slot,con,link", "c01", 96, 1600, make=make)
    chk.finish()
