"""C17 Time: Clock.tla exhaustively and on recorded whole-system runs."""
from ona import *
import decisions, learning, predictions

KINDS = "Line,Cycle,Input,AddEvent,NewBelief,Anticipate,Reset"


def timing(r):
    """Lines of all kinds between the inputs."""
    base = ona_script(r).rstrip("\n").split("\n") if r.random() < .5 else (procedural(r, 24) if r.random() < .6 else declarative(r, 24, tense=.6))
    out = ["!seed %d" % r.randint(1, 10 ** 6)]
    later = 5000
    sharing = False     # the next input shares the time of the last
    for x in base:
        if sharing and x.startswith("*concurrent"):
            continue
        if not x.startswith(("!", "*")):
            sharing = False
        k = r.random()
        out.append(x)
        if x.startswith("*concurrent"):
            sharing = True
        if k < .08:
            out.append(r.choice(["// a comment", "//", "//5", "//a. :|:"]))
        elif k < .16:
            out.append(r.choice(["", "  ", "\t", "0", "1", "2  ", "3", "07", "11"]))
            sharing = sharing and out[-1] == "0"
        elif k < .24:
            out.append(r.choice(["*volume=50", "*stats", "*concepts", "*motorbabbling=0.2", "*decisionthreshold=0.6", "*cycling_belief_events", "*questionpriming=0.2", "*stampid=500",
                                 "*query 0.5 <?1 --> y>?", "*setvalue 0.5 10 x", "*space 4 y", "*opconfig"]))
        elif k < .32:
            out.append(r.choice(["a?", "a? :|:", "<x --> ?1>? :/:", "<a =/> ?1>?", "b? :\\:  "]))
        elif k < .38 and out[-1].rstrip().endswith((".", ":|:", "}")) and not sharing:
            out.append(r.choice(["*concurrent", "*concurrent", "*concurrently"]))
            sharing = True
        elif k < .41:
            later += r.choice([1000, 3000])    # only forward: there are events of the present
            out.append("*currenttime=%d" % later)
            sharing = False
        elif k < .44:
            out.append(r.choice(["dt=2.5 <a =/> b>.", "dt=0.0 <(a &/ ^left) =/> b>. {1.0 0.8}", "dt=3 <b =/> c>. :|:"]))
    return "\n".join(out) + "\n"


ona_script = script


def main():
    chk = Check("C17")
    r = tlc("ClockModel", workers=JOBS, cfg=open(os.path.join(SPEC, "ClockModel.cfg")).read().replace("Lines = 4", "Lines = 6" if THOROUGH else "Lines = 4"))
    if r.violated:
        raise CheckError("design model violated:\n" + r.error_text())
    chk.model(r, "ClockModel: lines of every kind, cycles that execute operations")
    system_traces(chk, "ClockTrace", KINDS, "slot", "c17", 36, 1200, cfgs=("tiny", "small", "roomy"), make=timing)
    system_traces(chk, "ClockTrace", KINDS, "slot", "c17d", 12, 400, cfgs=("tiny", "small"), make=decisions.deciding)
    # the times of what is learned, predicted and concluded
    system_traces(chk, "LearningTrace", learning.KINDS, learning.PARTS, "c17l", 8, 300, cfgs=("roomy", "small"), make=learning.experience)
    system_traces(chk, "AnticipationTrace", predictions.KINDS, predictions.PARTS, "c17a", 8, 300, cfgs=("tiny", "small"), make=predictions.predicting)
    chk.finish()
