"""C19 Failing predictions: Anticipation.tla exhaustively on a small memory and on recorded runs."""
from ona import *
import decisions, predictions


def main():
    chk = Check("C19")
    r = tlc("AnticipationModel", workers=JOBS)
    if r.violated:
        raise CheckError("design model violated:\n" + r.error_text())
    chk.model(r, "AnticipationModel: 3 links, 3 events")
    k = predictions.KINDS, predictions.PARTS
    system_traces(chk, "AnticipationTrace", *k, "c19", 32, 1200, cfgs=("tiny", "small"), make=predictions.predicting)
    system_traces(chk, "AnticipationTrace", *k, "c19b", 12, 500, cfgs=("tiny", "cramped"), make=decisions.deciding)
    system_traces(chk, "AnticipationTrace", *k, "c19c", 8, 300, cfgs=("cramped", "small"))
    chk.finish()
