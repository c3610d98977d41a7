"""C21 Shell: ShellModel exhaustively; Shell.tla on recorded whole-system runs."""
from ona import *
import c15, c17, decisions, learning, predictions

KINDS, PARTS = "Line,Reset,Cycle,Input", "con,slot,link,q,use,set,out"
LISTINGS = ["*concepts", "*cycling_belief_events", "*cycling_goal_events", "*stats", "*opconfig", "*inverted_atom_index"]
NUMBERS = ["0", "00.5", "01.0", "0.010", "1", "0.0", "0.25", "0.5", "0.501", "0.625", "0.9", ".5", "1.0", "0.01", "0.02", "0.333333"]
OPS = ["^left", "^right", "^up", "^down", "^say", "^pick", "^drop", "^go", "^activate", "^deactivate", "^op1", "^grab", "^turn", "^op2"]
ARGS = ["x", "y", "{SELF}", "<x --> y>", "(x * y)", "[red]", "(*,{SELF},x)", "<x --> [red]>", "({SELF} * <x --> y>)", "$1", "(x &/ y)", "name_0.5"]


def number(r):
    return r.choice(NUMBERS) if r.random() < .6 else "%.*f" % (r.randint(1, 4), r.random())


def defining(r, slots):
    """Operation definitions (only before the first concept)."""
    out = []
    for _ in range(r.randint(1, 7)):
        i = r.randint(1, slots)
        k = r.random()
        out.append("*setopname %d %s" % (i, r.choice(OPS)) if k < .5 else "*setoparg %d %d %s" % (i, r.randint(1, 10) if r.random() < .5 else r.randint(1, 3), r.choice(ARGS)) if k < .85 else
                   r.choice(["*opconfig", "*babblingops=%d" % r.randint(1, slots), "*motorbabbling=%s" % number(r), "// slots"]))
    return out + (["*opconfig"] if r.random() < .8 else [])


def command(r, slots, names):
    k = r.randint(0, 15)
    if k == 0: return "*volume=%s" % r.choice([0, 100, 1, 10, 50, 99, 100, 0, 37, "010", "0050"])
    if k == 1: return r.choice(["*volume=0", "*volume=100"])
    if k == 2: return "*restrictedconceptcreation=" + r.choice(["true", "false"])
    if k == 3: return "*anticipationconfidence=" + number(r)
    if k == 4: return "*decisionthreshold=" + number(r)
    if k == 5: return "*similaritydistance=" + (number(r) if r.random() < .7 else r.choice(["2", "10.5", "1.25"]))
    if k == 6: return "*babblingops=%s%d" % (r.choice(["", "", "0", "00"]), r.randint(0, slots))
    if k == 7: return "*motorbabbling=" + r.choice(["true", "false", number(r), number(r)])
    if k == 8: return "*questionpriming=" + number(r)
    if k == 9: return "*setoparg %d %s%d %s" % (r.randint(1, slots), r.choice(["", "", "", "0"]), r.randint(1, 10), r.choice(ARGS))
    if k == 10: return "*stampid=%s" % r.choice([1000, 5000, 77777, 123456789, "0100", "0077"])
    if k == 11: return "*stampimport=[%s]" % ",".join(r.choice(["%d", "%d", "%d", "0%d"]) % r.randint(1, 900) for _ in range(r.choice([1, 1, 2, 3, 4, 9, 15, 31])))
    if k == 12:
        n = r.choice(["", "warm", "size", "x"]) if r.random() < .7 else r.choice(["warm", "size"])
        return ("*setvalue %s %d %s" % (number(r), r.choice([1, 5, 10, 11, 20, 100, 101, 500, 1000]), n)).rstrip()
    if k == 13: return "*space %d %s" % (r.choice([1, 2, 3, 4, 5, 8, 10, 12]), r.choice(["warm", "size", "far"]))
    if k == 14: return r.choice(["*anticipationconfidence= ", "*volume= ", "*questionpriming=", "*babblingops= "]) + r.choice(["1", "2"])
    return r.choice(LISTINGS)


DEFAULT = ["^left", "^right", "^up", "^down", "^say", "^pick", "^drop", "^go", "^activate", "^deactivate"]


def registered(lines, slots):
    """The operations that are in use after these definitions."""
    names = list(DEFAULT)
    for x in lines:
        m = re.match(r"\*setopname (\d+) (\S+)", x)
        if m:
            if m.group(2) in names:
                i = names.index(m.group(2))
                names[i:] = [None] * (len(names) - i)
            names[int(m.group(1)) - 1] = m.group(2)
    names = names[:slots]
    return names[:names.index(None)] if None in names else names


def handled(r, slots=4):
    k = r.random()
    make = c17.timing if k < .25 else decisions.deciding if k < .4 else predictions.predicting if k < .5 else learning.experience if k < .6 else c15.asking if k < .75 else (lambda r: script(r, n=30))
    base = [x for x in make(r).rstrip("\n").split("\n") if not x.startswith(("!babble", "*setop"))]
    cut = r.choice([8, 15, 30, 60])
    base = base[:cut]
    out = defining(r, slots) if r.random() < .6 else []
    shared = False
    known = registered(out, slots)
    for x in base:
        if shared and x.startswith("*concurrent"):
            continue
        if x.startswith(("!reset", "*reset")):
            out.append(x)
            new = defining(r, slots) if r.random() < .7 else []
            known = registered(new, slots)
            out += new
            shared = False
            continue
        if not set(re.findall(r"\^\w+", x)) <= set(known):     # (operations that are not registered cannot follow each other)
            continue
        out.append(x + r.choice(["", "", "", " ", " \t", "\r"]) if not x.startswith("!") else x)
        shared = x.startswith("*concurrent") or (shared and x.startswith(("*", "!", "//")))
        if r.random() < .3 and not shared:
            out.append(command(r, slots, None))
        if r.random() < .14:
            out.append(r.choice(LISTINGS))
        if r.random() < .05:
            out.append(r.choice(["// 1 2 3", "//*reset", "//", "///", "//\ta <b>\\\"quoted\"", "// *volume=0", "//quit", "// 0.5 {0.9 0.8}  .", "//5"]))
        if r.random() < .07 and not shared:
            out.append(r.choice(["", " ", "\t ", "1", "2", "4 ", "0", "003", "010", "012", "09", "0017 ", "1", "3"]))
        if r.random() < .02:
            out.append("*reset")
            new = defining(r, slots)
            known = registered(new, slots)
            out += new
            shared = False
    out += r.sample(LISTINGS, 3)
    if r.random() < .4:
        out += ["*setopstdin %d" % r.randint(1, slots), "*opconfig"]
        if r.random() < .5:
            out += ["*reset", "*opconfig"]
    if r.random() < .3:
        out.append("quit")
    return "//\n" + "\n".join(out) + "\n"


def main():
    chk = Check("C21")
    r = tlc("ShellModel", workers=JOBS)
    if r.violated:
        raise CheckError("design model violated:\n" + r.error_text())
    chk.model(r, "ShellModel: commands over a corpus of lines")
    system_traces(chk, "ShellTrace", KINDS, PARTS, "c21", 48, 1500, cfgs=("tiny", "small", "roomy"), make=handled)
    chk.finish()
