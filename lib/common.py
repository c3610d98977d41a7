"""Shared machinery of all checks: building /repo's working tree, running TLC, evidence, verdicts."""
import atexit, concurrent.futures as cf, hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ONA_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
JOBS = os.cpu_count() or 4
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
GUARD = "ONA_VERIF"
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

SCRATCH = tempfile.mkdtemp(prefix="onaverif.")
atexit.register(lambda: shutil.rmtree(SCRATCH, ignore_errors=True))
signal.signal(signal.SIGTERM, lambda *_: sys.exit(143))


class CheckError(Exception):
    """The check itself could not give an answer (exit 2)."""


# --------------------------------------------------------------------------- building
CFLAGS = ["-pthread", "-D_POSIX_C_SOURCE=199506L", "-std=c99", "-g1", "-w", "-mfpmath=sse", "-msse2"]


def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode != 0:
        raise CheckError("command failed: %s\n%s" % (" ".join(cmd), p.stdout.decode("utf-8", "replace")[-4000:]))
    return p.stdout


def _sources():
    out = []
    for d in ("src", "src/NetworkNAR"):
        for f in sorted(os.listdir(os.path.join(REPO, d))):
            if f.endswith(".c") and f != "RuleTable.c":
                out.append(os.path.join(d, f))
    return out


_ruletable = {}


def _srccopy():
    """A snapshot of /repo/src without generated files, so that a build never mixes two trees."""
    d = os.path.join(SCRATCH, "tree")
    if not os.path.isdir(d):
        os.makedirs(d)
        shutil.copytree(os.path.join(REPO, "src"), os.path.join(d, "src"), ignore=shutil.ignore_patterns("RuleTable.c", "*.o"))
    return d


def ruletable(pool):
    """Stage 1: build the rule table generator from the working tree and run it."""
    if "c" in _ruletable:
        return _ruletable["c"]
    tree = _srccopy()
    o = os.path.join(SCRATCH, "stage1")
    os.makedirs(o, exist_ok=True)
    objs = []
    jobs = []
    for s in _sources():
        obj = os.path.join(o, s.replace("/", "_")[:-2] + ".o")
        objs.append(obj)
        jobs.append(pool.submit(_run, ["gcc", "-DSTAGE=1", "-O0"] + CFLAGS + ["-c", os.path.join(tree, s), "-o", obj]))
    for j in jobs:
        j.result()
    exe = os.path.join(o, "NAR1")
    _run(["gcc", "-pthread"] + objs + ["-o", exe, "-lm"])
    out = subprocess.run([exe, "NAL_GenerateRuleTable"], stdout=subprocess.PIPE, timeout=120)
    if out.returncode != 0:
        raise CheckError("NAL_GenerateRuleTable failed")
    _ruletable["c"] = os.path.join(tree, "src", "RuleTable.c")
    with open(_ruletable["c"], "wb") as f:
        f.write(out.stdout)
    return _ruletable["c"]


def build(name, harness, config=None, defines=(), main=False, opt="-O1", ldflags=(), hooks=True):
    """Compile /repo's current sources (stage 2, hooks on) with harness files of /verif/harness; returns the binary.

    config: dict of Config.h parameters to override (through the guarded ONA_VERIF_CONFIG include)."""
    out = os.path.join(SCRATCH, "build-" + name)
    exe = os.path.join(out, name)
    if os.path.exists(exe):
        return exe
    os.makedirs(out)
    flags = ["-DSTAGE=2", opt] + CFLAGS + list(defines)
    if hooks:
        flags += ["-D" + GUARD]
    if config is not None:
        cfg = os.path.join(out, "verif_config.h")
        with open(cfg, "w") as f:
            for k, v in config.items():
                f.write("#undef %s\n#define %s %s\n" % (k, k, v))
        flags += ['-DONA_VERIF_CONFIG="%s"' % cfg]
    with cf.ThreadPoolExecutor(JOBS) as pool:
        rt = ruletable(pool)
        tree = _srccopy()
        jobs, objs = [], []
        for s in [os.path.join(tree, x) for x in _sources() if main or x != "src/main.c"] + [rt] + [os.path.join(HARN, h) for h in harness]:
            obj = os.path.join(out, os.path.basename(os.path.dirname(s)) + "_" + os.path.basename(s)[:-2] + ".o")
            objs.append(obj)
            f = flags + (["-O0"] if s == rt else [])
            jobs.append(pool.submit(_run, ["gcc"] + f + ["-I", os.path.join(tree, "src"), "-I", os.path.join(tree, "src", "NetworkNAR"), "-I", HARN, "-c", s, "-o", obj]))
        for j in jobs:
            j.result()
    _run(["gcc", "-pthread"] + objs + list(ldflags) + ["-o", exe, "-lm"])
    return exe


def run(cmd, stdin=None, timeout=120, env=None, cwd=None):
    """Run a harness; returns (returncode, stdout, stderr); returncode None on timeout. Own process group, killed afterwards."""
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, env=e, cwd=cwd or SCRATCH, start_new_session=True)
    try:
        o, er = p.communicate(stdin.encode() if isinstance(stdin, str) else stdin, timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, er = p.communicate()
    return rc, o.decode("utf-8", "replace"), er.decode("utf-8", "replace")


# --------------------------------------------------------------------------- TLC
class Tlc:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        m = re.findall(r"The depth of the complete state graph search is (\d+)", out)
        self.depth = int(m[-1]) if m else 0
        self.violated = bool(re.search(r"Invariant \S+ is violated|Action property \S+ is violated|is violated|Temporal properties were violated|Deadlock reached|The postcondition .* is false|Postcondition .* (is )?(violated|false)", out))
        self.ok = rc == 0 and not self.violated
        self.finished = "Model checking completed" in out or "Finished in" in out
        #: the specification is undefined on an observed value (evaluation error after N states)
        self.undefined = "The behavior up to this point is:" in out and not self.violated
        if self.undefined:
            self.depth = max([int(x) for x in re.findall(r"^State (\d+):", out, re.M)] or [0])
        #: JSON values printed by the specification with PrintT("VERIF " \\o ToJson(x))
        self.prints = [json.loads(json.loads('"' + x + '"')) for x in re.findall(r'^"VERIF (.*)"$', out, re.M)]

    def error_text(self, n=60):
        lines = self.out.split("\n")
        for i, l in enumerate(lines):
            if l.startswith("Error:"):
                return "\n".join(lines[i:i + n])
        return "\n".join(lines[-n:])


def tlc(module, cfg=None, env=None, workers=None, args=(), timeout=600, heap="3g", undefined_ok=False):
    """Run TLC on spec/<module>.tla with spec/<cfg> (or a generated cfg text when `cfg` holds newlines)."""
    meta = tempfile.mkdtemp(prefix="tlc.", dir=SCRATCH)
    if cfg and "\n" in cfg:
        p = os.path.join(meta, module + ".cfg")
        with open(p, "w") as f:
            f.write(cfg)
        cfg = p
    else:
        cfg = os.path.join(SPEC, cfg or module + ".cfg")
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + meta, "-DTLA-Library=" + SPEC,
           "-cp", TLA_CP, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", os.path.join(meta, "states"),
           "-workers", str(workers or 1), "-config", cfg] + list(args) + [os.path.join(SPEC, module + ".tla")]
    rc, o, e = run(cmd, timeout=timeout, env=env, cwd=meta)
    if rc is None:
        raise CheckError("TLC timed out on %s" % module)
    r = Tlc(o + e, rc)
    shutil.rmtree(meta, ignore_errors=True)
    if not r.ok and not r.violated and not (undefined_ok and r.undefined):
        raise CheckError("TLC failed on %s (rc=%s):\n%s" % (module, rc, r.error_text() if "Parsing or semantic" not in r.out else r.out[-3000:]))
    return r


def pmap(f, items, jobs=None):
    with cf.ThreadPoolExecutor(jobs or JOBS) as pool:
        return list(pool.map(f, items))


# --------------------------------------------------------------------------- verdicts
class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level, self.t0 = prop, level, time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.violations, self.known, self.assumptions = [], [], [], []
        self.cov = {}
        self.findings = load_findings().get(prop, [])
        self.groups = []

    def model(self, r, name):
        """Account for an exhaustive or simulated TLC run of a design model."""
        self.states += r.distinct
        self.transitions += r.generated
        self.cov.setdefault("models", {})[name] = {"distinct": r.distinct, "generated": r.generated, "depth": r.depth}

    def trace(self, n=1, events=0):
        self.traces += n
        self.cov["trace_events"] = self.cov.get("trace_events", 0) + events

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, what, files=None, finding=None):
        """files: {name: content} stored beside the description as the replay."""
        if finding is not None and finding in self.findings:
            if finding not in self.known:
                self.known.append(finding)
            return
        d = os.path.join(VERIF, "replays", "%s-%s" % (self.prop, hashlib.sha1((what + repr(files)).encode()).hexdigest()[:10]))
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "README"), "w") as f:
            f.write(what + "\n")
        for k, v in (files or {}).items():
            with open(os.path.join(d, k), "w") as f:
                f.write(v)
        self.violations.append((what, d))

    def flush(self):
        """Validate the recorded traces that are waiting."""
        g, self.groups = self.groups, []
        _validate_groups(self, g)

    def finish(self):
        self.flush()
        for k in self.findings:
            if k in self.known:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        cov = dict(self.cov)
        cov.update(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples or ["(none)"])
        ev = dict(property=self.prop, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for what, d in self.violations[:5]:
            print(what[:2000])
            print("VIOLATION property=%s replay=%s" % (self.prop, d))
        if not self.violations:
            print("OK property=%s states=%d traces=%d wall=%.1fs" % (self.prop, self.states, self.traces, time.time() - self.t0))
        sys.stdout.flush()
        sys.exit(1 if self.violations else 0)


def load_findings():
    """known-findings.txt: 'known: property=<id> <text>' entries are reported, not alarms; 'fixed:' entries suppress nothing."""
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) (.*)", l.strip())
            if m:
                out.setdefault(m.group(1), []).append(m.group(2))
    return out


def rng(*key):
    return random.Random("%d/%s" % (SEED, "/".join(map(str, key))))


# --------------------------------------------------------------------------- trace validation
def validate(module, lines, cfg=None, env=None, timeout=600, heap="2g"):
    """Validate one recorded trace (list of JSON lines) against spec/<module>.tla.  Returns (accepted, matched, Tlc)."""
    d = tempfile.mkdtemp(prefix="trace.", dir=SCRATCH)
    p = os.path.join(d, "trace.ndjson")
    with open(p, "w") as f:
        f.write("\n".join(lines) + "\n")
    e = {"TRACE": p}
    e.update(env or {})
    r = tlc(module, cfg=cfg, env=e, workers=1, timeout=timeout, heap=heap, undefined_ok=True)
    shutil.rmtree(d, ignore_errors=True)
    matched = max(r.depth - 1, 0)
    return (r.ok and matched == len(lines)), matched, r


def validate_scripts(chk, module, record, scripts, cfg=None, env=None, batch=None, timeout=600, describe=None, minlines=1, defer=False):
    """record(script) -> list of JSON lines from the real code (or None when it crashed).
    Scripts are independent; batches of their traces are validated in parallel, every rejection is repeated alone."""
    def rec(s):
        return s, record(s)
    recs = pmap(rec, scripts)
    ok = []
    for s, lines in recs:
        if isinstance(lines, str):
            again = record(s)
            if isinstance(again, str):
                chk.violation("the code under test did not complete: %s" % lines, {"script": str(s), "result": lines})
            continue
        if len(lines) < minlines:
            raise CheckError("empty trace")
        ok.append((s, lines))
    nb = batch or max(1, min(JOBS, len(ok)), len(ok) // 12)
    groups = [(g, module, cfg, env, timeout, record) for g in (ok[i::nb] for i in range(nb)) if g]
    chk.groups += groups
    if not defer or sum(len(g[0]) for g in chk.groups) > 400:
        chk.flush()


def _validate_groups(chk, groups):
    groups = sorted(groups, key=lambda x: -sum(len(l) for _, ls in x[0] for l in ls))   # the longest first

    def val(x):
        g, module, cfg, env, timeout, _ = x
        return x, validate(module, [y for _, ls in g for y in ls], cfg=cfg, env=env, timeout=timeout)
    for res in pmap(val, groups):
        (g, module, cfg, env, timeout, record), (acc, matched, r) = res
        chk.count("trace_states", r.distinct)
        for t in sorted({p["finding"] for p in r.prints if "finding" in p}):
            chk.violation("%s: %s" % (module, t), {"scripts": "\n----\n".join(str(s) for s, _ in g)}, finding=t)
        if acc:
            chk.trace(len(g), sum(len(ls) for _, ls in g))
            continue
        if len(chk.violations) >= 3:
            continue
        # find scripts that are rejected alone, with a fresh recording
        bad, upto, order = 0, 0, []
        for s, ls in g:   # the script at whose event the batch was rejected comes first
            order.insert(0 if upto <= matched < upto + len(ls) else len(order), (s, ls))
            upto += len(ls)
        for s, _ in order:
            if bad >= 1:
                break
            lines = record(s)
            if isinstance(lines, str):
                bad += 1
                chk.violation("the code under test did not complete: %s" % lines, {"script": str(s), "result": lines})
                continue
            a, m, r1 = validate(module, lines, cfg=cfg, env=env, timeout=timeout)
            if a:
                chk.trace(1, len(lines))
                continue
            bad += 1
            nxt = lines[m] if m < len(lines) else "(end)"
            chk.violation("%s rejects the recorded behaviour at event %d of %d:\n%s\nafter\n%s" %
                          (module, m + 1, len(lines), nxt[:1500], "\n".join(x[:300] for x in lines[max(0, m - 3):m])),
                          {"script": s if isinstance(s, str) else json.dumps(s), "trace.ndjson": "\n".join(lines), "tlc.txt": r1.error_text(120)})
        if not bad:
            raise CheckError("a batch was rejected but none of its traces alone (%s):\n%s" % (module, r.error_text()))
