"""C20 Attention: Attention.tla exhaustively on a small system and on recorded runs."""
from ona import *
import attention, decisions


def main():
    chk = Check("C20")
    r = tlc("AttentionModel", workers=JOBS)
    if r.violated:
        raise CheckError("design model violated:\n" + r.error_text())
    chk.model(r, "AttentionModel: 3 cycles, 3 queues of 2 items, 7 inputs")
    k = attention.KINDS, attention.PARTS
    system_traces(chk, "AttentionTrace", *k, "c20", 32, 1200, cfgs=("tiny", "small"), make=attention.crowding)
    system_traces(chk, "AttentionTrace", *k, "c20b", 12, 500, cfgs=("tiny", "cramped"), make=decisions.deciding)
    system_traces(chk, "AttentionTrace", *k, "c20c", 20, 600, cfgs=("tiny", "small", "cramped", "roomy"))
    chk.finish()
