"""C11 Temporal learning: Learning.tla exhaustively on small experiences and on recorded runs."""
from ona import *
import learning


def main():
    chk = Check("C11")
    r = tlc("LearningModel", workers=JOBS)
    if r.violated:
        raise CheckError("design model violated:\n" + r.error_text())
    chk.model(r, "LearningModel: 4 events or operations at 5 distances")
    k = learning.KINDS, learning.PARTS
    system_traces(chk, "LearningTrace", *k, "c11", 24, 1200, cfgs=("tiny", "small"), make=learning.experience)
    system_traces(chk, "LearningTrace", *k, "c11b", 16, 800, cfgs=("tiny", "cramped", "small", "roomy"))
    chk.finish()
