"""C15 Questions: Questions.tla on small memories exhaustively and on recorded whole-system runs."""
from ona import *
import decisions, learning, predictions

KINDS, PARTS = "Line,Reset", "con,slot,link,q,ring,use,sel,set,out,ask"
NAMES = ["x", "y", "z", "w"]


def asked(r, said):
    """A question about something that was said, with parts left open."""
    t = re.sub(r"^dt=\S+ ", "", r.choice(said))
    t = re.sub(r"\s*\{[0-9. ]+\}\s*$", "", t)
    t = re.sub(r"\s*:\|:\s*$", "", t).rstrip(".!? ")
    k = 0
    names = {}
    mark = "?" if r.random() < .85 else r.choice("$#")

    def var(m):
        nonlocal k
        if r.random() > .4:
            return m.group(0)
        if m.group(0) in names and r.random() < .7:
            return names[m.group(0)]
        k += 1
        names[m.group(0)] = "%s%d" % (mark, k)
        return names[m.group(0)]
    if r.random() < .75:
        t = re.sub(r"(?<![\^\w$#?/\\*|&])[a-z]\b(?!\w)", var, t)
    if " =/> " in t and r.random() < .4:
        a, b = t.split(" =/> ", 1)
        t = r.choice([lambda: "<?1 =/> " + b, lambda: a + " =/> ?1>", lambda: "<?1 =/> ?2>", lambda: "<(?1 &/ ?2) =/> " + b])()
    elif " ==> " in t and r.random() < .3:
        a, b = t.split(" ==> ", 1)
        t = r.choice([lambda: "<?1 ==> " + b, lambda: a + " ==> ?1>"])()
    tense = "" if "==>" in t else r.choice(["", "", " :|:", " :\\:", " :/:"])
    if r.random() < .25:
        return "*query %s %s?%s" % (r.choice(["0.5", "0", "0.0", "0.6", "0.45", "0.95", "1", "0.52"]), t, tense)
    return t + "?" + tense


def linked(r, n):
    """Many implications with the same consequence."""
    out = []
    for _ in range(2):
        post = r.choice(["a", "<x --> y>", "<z --> w>"])
        op = r.choice(["==>", "=/>", "=/>", "&/ ^left) =/>", "&/ ^down) =/>"])
        for a in r.sample(["b", "c", "d", "e", "f", "<x --> w>", "<y --> z>", "<$1 --> w>"], r.randint(3, 8)):
            p = post.replace("<x", "<$1") if "$1" in a else post
            if "$1" in a and "$1" not in p:
                continue
            out.append("<%s%s %s %s>.%s" % ("(" if ")" in op else "", a, op, p, tv(r, .7)))
    r.shuffle(out)
    return out[:n]


def asking(r, n=30):
    k = r.random()
    if k < .2:
        out = linked(r, n)
    elif k < .3:
        out = procedural(r, n)
    elif k < .5:
        out = declarative(r, n, tense=.5)
    elif k < .65:
        out = decisions.deciding(r).rstrip("\n").split("\n")
    elif k < .8:
        out = predictions.predicting(r).rstrip("\n").split("\n")
    else:
        out = script(r, n=n).rstrip("\n").split("\n")
    res, said = ["!seed %d" % r.randint(1, 10 ** 6)], []
    for x in out:
        res.append(x)
        if x and x[0] not in "!*" and re.search(r"[.!](?=$| [:{])", x) and not x[0].isdigit():
            said.append(x)
        shared = x.startswith("*concurrent")
        while said and not shared and r.random() < .3:
            res.append(asked(r, said))
        if r.random() < .03:
            res.append("*questionpriming=%s" % r.choice(["0", "0.2", "0.9", "0.1", "1.0"]))
        if r.random() < .04 and not shared:
            res.append(r.choice(["<x --> ?1>?", "?1?", "?1? :|:", "<?1 =/> ?2>?", "<?1 ==> ?2>?", "<?1 --> ?2>? :|:", "nothing?", "*query 0.5 ?1?", "*query 0 ?1? :|:", "(?1 &/ ?2)?", "(?1 && ?2)?",
                                 "<(?1 &/ ^left) =/> ?2>?", "<(?1 &/ ^up) =/> ?2>?", "*query 0.4 <?1 =/> ?2>?", "*query 0.4 <(?1 &/ ?2) =/> ?3>?", "<nothing ==> ?1>?"]))
    if k < .2:    # each link, one by one
        res += [re.sub(r"\.( \{.*)?$", "?", x) for x in out]
    text = "\n".join(res) + "\n"
    return text.replace("^up", "^down") if r.random() < .5 else text     # (^down: the last of the operations)


def main():
    chk = Check("C15")
    r = tlc("QuestionsModel", workers=JOBS)
    if r.violated:
        raise CheckError("design model violated:\n" + r.error_text())
    chk.model(r, "QuestionsModel: the scan for an answer over small memories")
    system_traces(chk, "QuestionsTrace", KINDS, PARTS, "c15", 48, 1500, cfgs=("tiny", "small", "roomy"), make=asking)
    chk.finish()
