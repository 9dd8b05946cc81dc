"""What each property's check runs, and how it decides."""
import collections, json, os, re, sys, time, hashlib, traceback
from concurrent.futures import ThreadPoolExecutor
from . import core
from .core import ToolError

ASYNC3 = "mem;dir;arc"
ALLB = "mem;dir;arc;cdir;raw;smem;sarc;omem;osmem"
NOCACHE = "mem;memnc;dirnc;arc0"
SYNC = "smem;sdir;sarc;sraw"
PAIRS = "mem,mem;dir,arc;arc,dir;mem,dir;arc,mem"

# specification models: name -> (module, config file, seconds allowed)
MODELS = {
    "layers": ("MCTerminusStore", "MC_layers.cfg", 200),
    "layers_deep": ("MCTerminusStore", "MC_layers_deep.cfg", 1500),
    "builders": ("MCTerminusStore", "MC_builders.cfg", 200),
    "dict": ("MCTerminusStore", "MC_dict.cfg", 200),
    "dict_deep": ("MCTerminusStore", "MC_dict_deep.cfg", 1500),
    "dbs": ("MCTerminusStore", "MC_dbs.cfg", 200),
    "packs": ("MCTerminusStore", "MC_packs.cfg", 200),
}

Q = {}   # property -> dict(models, runs, deep_models, special)


def check(pid, models, runs, deep=(), special=(), level="model_checking", assumptions=(), **kw):
    Q[pid] = dict(models=list(models), runs=list(runs), deep=list(deep), special=list(special), level=level, assumptions=list(assumptions), **kw)


check("C01", ["layers", "builders"], [("build", 110, ASYNC3), ("all", 40, ASYNC3), ("big", 6, "mem;dir"), ("huge", 2, ASYNC3)], ["layers_deep"])
check("C02", ["layers"], [("build", 60, ASYNC3), ("maint", 40, "mem;arc"), ("merge", 20, "mem;dir"), ("big", 8, "mem;arc"), ("huge", 2, "mem;arc")], ["layers_deep"])
check("C03", ["dict"], [("build", 50, ASYNC3), ("rollup", 30, "mem;arc"), ("merge", 20, "mem;dir"), ("big", 8, "mem;dir"), ("huge", 2, "mem;dir"), ("siblings", 30, "mem;arc")], ["dict_deep"])
check("C04", ["builders"], [("build", 100, ASYNC3), ("all", 60, ASYNC3), ("maint", 20, "mem;dir")], ["layers_deep"])
check("C05", ["layers"], [("build", 50, ASYNC3), ("rollup", 40, "mem;dir"), ("maint", 30, "mem;arc")], ["layers_deep"], ["stacks"])
check("C06", ["layers", "stack"], [("rollup", 60, "mem;dir"), ("rollup", 30, "memnc;arc"), ("maint", 40, "mem;arc"), ("big", 4, "mem"), ("huge", 2, "mem;arc")], ["layers_deep", "stack_deep"], ["stack_flaws", "stacks"])
check("C07", ["layers", "stack"], [("squash", 90, ASYNC3), ("maint", 30, "mem;arc"), ("huge", 2, "mem;dir")], ["layers_deep", "stack_deep"])
check("C08", ["layers"], [("merge", 110, ASYNC3), ("big", 6, "mem"), ("huge", 2, "mem;arc")], ["layers_deep"])
check("C09", ["builders"], [("delta", 100, ASYNC3), ("siblings", 100, ASYNC3)], ["layers_deep"])
check("C10", ["dbs", "labels"], [("dbs", 40, ASYNC3), ("versions", 12, ASYNC3)], ["labels_deep"], ["labels_flaws", "heads_all"])
check("C11", ["dbs", "labels"], [("dbs", 40, ASYNC3), ("ff", 80, ASYNC3)], ["labels_deep"], ["heads_ff"])
check("C12", ["dbs", "labels_names"], [("dbs", 110, "mem;dir;arc;cdir"), ("versions", 8, "mem;dir;arc;cdir")], [], ["heads_names"])
check("C13", ["dbs"], [("all", 50, ALLB), ("dbs", 40, ALLB), ("maint", 15, ALLB), ("packs", 20, PAIRS), ("versions", 4, ALLB), ("huge", 1, "mem;dir;arc;raw;sarc"), ("many", 1, "mem;arc;sarc")])
check("C14", ["crash", "labels_crash"], [], ["crash_deep"], ["crash_flaws", "crashes"], level="fault_enumeration",
      rule="a case is a specification-generated history whose last operation is interrupted, one run per file-changing call of that operation (and part way through each long write, and right after it returns with file calls delayed); "
           "non-trivial: the operation changes files, and the trace of the run (what was acknowledged, what was read after reopening, the repetition) differs from those of the operation's other crash points",
      assumptions=["the process is killed, the machine stays up: what a system call wrote is there; writes within a page are not torn", "one process, killed with all its threads"])
check("C19", ["faults"], [], ["faults_deep"], ["faults_flaws", "faults"], level="fault_enumeration",
      rule="a case is a specification-generated history during whose last operation a file-changing call fails (once, or that one and all later ones of the operation), one run per such call; "
           "non-trivial: the operation changes files, and the trace of the run (what was acknowledged, what the same process then reads, the repetition, what is read after reopening) differs from those of the operation's other failing calls",
      assumptions=["a call that fails does nothing (a long write may have done a part); files can be read while changing them fails"])
check("C15", ["packs"], [("packs", 110, PAIRS), ("hugepacks", 6, "mem,dir;arc,mem;dir,arc")])
check("C16", ["cache"], [("all", 30, "arc;arc0"), ("maint", 15, "arc;arc0"), ("big", 4, "arc;arc0"), ("huge", 1, "arc;arc0")], ["cache_deep"], ["cache_flaws", "caches"],
      assumptions=["the bytes stored under one layer name never change (layers are immutable)"])
check("C17", ["sharing"], [], ["sharing_deep"], ["sharing_flaws", "parallel"],
      assumptions=["tasks do not block the thread that other tasks of the same join! need (import blocks its thread by design and gets one of its own)"])
check("C18", ["layers"], [("all", 60, ASYNC3), ("maint", 40, ASYNC3), ("packs", 20, "mem,dir;arc,mem"), ("many", 1, ASYNC3)], [], ["stacks"])

THOROUGH_S = int(os.environ.get("TSH_THOROUGH_S", "1500"))

LABELS = """SPECIFICATION Spec
CONSTANTS Kind = "%s" Clients = {%s} NLayers = %d MaxOps = %d OpKinds = {%s} Crashes = %d Flaw = "%s" StartDb = TRUE
INVARIANTS Linearizable NoDeadlock
SYMMETRY Symmetric
CHECK_DEADLOCK FALSE
"""
HEADOPS = ("sethead", "force", "head")
NAMEOPS = ("create", "delete", "open", "lget", "lset")


def labels_cfg(kind="dir", clients=2, layers=3, ops=2, kinds=HEADOPS, crashes=0, flaw="none"):
    return LABELS % (kind, ", ".join("c%d" % k for k in range(1, clients + 1)), layers, ops, ", ".join('"%s"' % k for k in kinds), crashes, flaw)


# models of concurrent head updates: name -> list of Labels.tla instances
LABEL_MODELS = {
    "labels": [dict(), dict(kind="mem")],
    "labels_crash": [dict(crashes=1)],
    "labels_deep": [dict(crashes=1), dict(clients=3, ops=1), dict(clients=3, ops=2, layers=2, kinds=("sethead", "force")), dict(kind="mem", clients=3, ops=2), dict(ops=3, kinds=("sethead", "force")), dict(ops=2, crashes=2), dict(kinds=HEADOPS + ("forcev", "lset", "lclear", "lget"))],
    "labels_names": [dict(kinds=NAMEOPS, ops=2, layers=1), dict(kind="mem", kinds=NAMEOPS, ops=2, layers=1)],
}
# mistakes the specification must notice (so that the invariants are known to mean something)
LABEL_FLAWS = [dict(flaw="nolock"), dict(flaw="unlockearly"), dict(flaw="noff"), dict(flaw="noretry"), dict(flaw="cmphead"), dict(flaw="truncate", crashes=1),
               dict(flaw="overwrite", kinds=("create", "delete"), ops=2), dict(flaw="cmpversion", kinds=("delete", "create", "lget", "lset"), ops=3)]

CRASH = """SPECIFICATION Spec
CONSTANTS Kind = "%s" Clients = {%s} NLayers = %d MaxOps = %d Crashes = %d OpKinds = {"commit","import","rollup","sethead","create","delete"} Flaw = "%s"
INVARIANTS LayersIntact HeadRight HeadReadable NothingElse ArchivesWhole
CHECK_DEADLOCK FALSE
"""


def crash_cfg(kind="dir", clients=2, layers=3, ops=4, crashes=1, flaw="none"):
    return CRASH % (kind, ", ".join("c%d" % k for k in range(1, clients + 1)), layers, ops, crashes, flaw)


CRASH_MODELS = {
    "crash": [dict(), dict(kind="arc")],
    "crash_deep": [dict(ops=5, crashes=2), dict(kind="arc", ops=5, crashes=2), dict(clients=3), dict(kind="arc", clients=3)],
}
CRASH_FLAWS = [dict(flaw="inplace", kind="arc"), dict(flaw="ackearly"), dict(flaw="ackearly", kind="arc"), dict(flaw="importskip"), dict(flaw="registerfirst"),
               dict(flaw="registerfirst", kind="arc"), dict(flaw="truncate"), dict(flaw="rollinplace"), dict(flaw="createempty")]

FAULTS = """SPECIFICATION Spec
CONSTANTS Clients = {%s} Names = {%s} NLayers = %d MaxOps = %d Fails = %d Flaw = "%s"
INVARIANTS Agree Right NothingLeft Honest Stored
SYMMETRY Symmetric
CHECK_DEADLOCK FALSE
"""


def faults_cfg(clients=2, names=2, layers=3, ops=4, fails=2, flaw="none"):
    return FAULTS % (", ".join("c%d" % k for k in range(1, clients + 1)), ", ".join("n%d" % k for k in range(1, names + 1)), layers, ops, fails, flaw)


FAULT_MODELS = {
    "faults": [dict()],
    "faults_deep": [dict(ops=5), dict(clients=3, names=1), dict(clients=1, ops=6, fails=3)],
}
FAULT_FLAWS = [dict(flaw=f) for f in ("takelate", "cleanup", "forgetfirst", "knowfirst", "alltogether")]

CACHE = """SPECIFICATION Spec
CONSTANTS Clients = {%s} Ids = {1,2,3,4} MaxOps = %d Fails = %d Cancels = %d Flaw = "%s" Limit = 3 InitStored = {%s}
Sizes <- SZ
VIEW View
INVARIANTS Explained Bounded NotTooLarge OnceEach
SYMMETRY Symmetric
"""


def cache_cfg(clients=2, ops=2, fails=1, cancels=1, stored="1,2,3,4", flaw="none"):
    return CACHE % (", ".join("c%d" % k for k in range(1, clients + 1)), ops, fails, cancels, flaw, stored)


CACHE_MODELS = {
    "cache": [dict(), dict(stored="1,2"), dict(clients=3, ops=1)],
    "cache_deep": [dict(ops=3), dict(clients=3, ops=2, stored="1,2,4", fails=1, cancels=1), dict(ops=3, fails=2, cancels=2, stored="1,2,4")],
}
CACHE_FLAWS = [dict(flaw=f, stored="1,2,4", ops=3) for f in ("noroom", "toolarge", "failstays", "early", "noabandon", "rmany", "storeover", "storefirst")]

SHARING = """SPECIFICATION Spec
CONSTANTS N = %d Tasks = {%s} Ops = %d MaxRolls = %d Flaw = "%s"
INVARIANTS Right NoFailure CacheRight RollupRight
%sCHECK_DEADLOCK FALSE
"""


def sharing_cfg(n=3, tasks=2, ops=2, rolls=2, flaw="none", live=False):
    return SHARING % (n, ", ".join("p%d" % k for k in range(1, tasks + 1)), ops, rolls, flaw, "PROPERTY Finishes\n" if live else "SYMMETRY Symmetric\n")


SHARING_MODELS = {
    "sharing": [dict(), dict(ops=1, live=True)],
    "sharing_deep": [dict(tasks=3, ops=1), dict(n=4, ops=1), dict(n=4, ops=2, rolls=1)],
}
SHARING_FLAWS = [dict(flaw=f) for f in ("twice", "reread", "rawname", "early", "stackonly")]


def stack_cfg(n=3, dirs=5, kids=1, changes="V1", flaw="none"):
    return core.STACK_CFG % (n, dirs, kids, flaw, changes, "")


STACK_MODELS = {
    "stack": [dict(), dict(n=4, dirs=6, kids=0, changes="V2")],
    "stack_deep": [dict(n=4, dirs=6, kids=1), dict(n=3, dirs=6, kids=2, changes="V2"), dict(n=4, dirs=7, kids=0)],
}
STACK_FLAWS = [dict(flaw=f) for f in ("readd", "keepneg", "nomap", "nopmap", "rollname", "reach", "nobound", "squashpos")]
# protocol models with instances of their own: name -> (module, config, instances)
PROTOCOLS = {}
for (_mod, _cfg, _insts) in (("Labels", labels_cfg, LABEL_MODELS), ("Crash", crash_cfg, CRASH_MODELS), ("Faults", faults_cfg, FAULT_MODELS), ("ArchiveCache", cache_cfg, CACHE_MODELS), ("Sharing", sharing_cfg, SHARING_MODELS), ("Stack", stack_cfg, STACK_MODELS)):
    for _k in _insts:
        PROTOCOLS[_k] = (_mod, _cfg, _insts[_k])

# operations -> properties contradicted when the operation never returns
HANG_TAGS = {
    "base": "C01 C17", "child": "C01 C17", "add": "C01", "rem": "C01", "commit": "C01 C17", "delta": "C09", "diff": "C09", "squash": "C07", "squash_upto": "C07",
    "merge": "C08", "rollup": "C06", "rollup_upto": "C06", "irollup_upto": "C06", "create": "C12", "open": "C12", "delete": "C12", "gdelete": "C12", "labels": "C12",
    "head": "C10 C12", "sethead": "C10 C11", "force": "C10", "forcev": "C10", "lget": "C10", "lset": "C10", "lclear": "C10", "get": "C18", "layers": "C18", "getrandom": "C18",
    "lstore": "C18 C05", "bname": "C18 C04", "ancestor": "C18 C11", "ancestors": "C18 C11", "export": "C15", "import": "C15", "reopen": "C13", "obs": "C01 C02 C03 C04 C05 C17", "drop": "C04", "dropall": "C04",
}


class Ctx:
    """accumulates what a check covered and found"""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.violations = []      # dicts with what, replay data
        self.states = self.transitions = self.traces = self.events = 0
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.parts = []
        self.known = known_findings(pid)
        self.known_hit = set()
        self.others = set()

    @property
    def quick(self):
        return self.tier == "quick"

    def elapsed(self):
        return time.time() - self.t0

    def model(self, name):
        if name in PROTOCOLS:
            mod, cfg, insts = PROTOCOLS[name]
            for p in insts:
                t0 = time.time()
                r = core.model_check(mod, cfg(**p), timeout=1000 if "deep" in name else 300)
                self.states += r["distinct"]
                self.transitions += r["generated"]
                self.parts.append({"model": mod, "instance": p, "distinct_states": r["distinct"], "generated_states": r["generated"], "s": round(time.time() - t0, 1)})
                log("model %s %s: %d distinct states, %.1fs" % (mod, p, r["distinct"], time.time() - t0))
            return
        mod, cfg, t = MODELS[name] if isinstance(name, str) else name
        t0 = time.time()
        r = core.model_check(mod, open(os.path.join(core.SPECS, cfg)).read(), timeout=t)
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.parts.append({"model": cfg, "distinct_states": r["distinct"], "generated_states": r["generated"], "s": round(time.time() - t0, 1)})
        log("model %s: %d distinct states, %.1fs" % (cfg, r["distinct"], time.time() - t0))

    def violation(self, what, replay, tags=None):
        tags = tags if tags is not None else [self.pid]
        if self.pid not in tags:
            self.others.add((",".join(tags), what))
            return
        for k in self.known:
            if re.search(k["match"], what):
                self.known_hit.add((k["match"], what))
                return
        self.violations.append({"what": what, "replay": replay})

    def sample(self, s, n=6):
        if len(self.samples) < n:
            self.samples.append(s)

    def scripts(self, profile, num, backends, seed, hang=60):
        """spec-generated scripts executed on the real library, judged against the spec"""
        t0 = time.time()
        sc = core.generate(profile, num, seed)
        self.run_scripts(sc, backends, profile, hang)
        log("%s seed %d: %d scripts on %s, %.1fs, violations so far %d" % (profile, seed, len(sc), backends, time.time() - t0, len(self.violations)))

    def run_scripts(self, sc, backends, label, hang=60):
        t0 = time.time()
        byid = {s["id"]: s for s in sc}
        lines, summ, hung = core.run_scripts(sc, backends, hang=hang)
        if hung:
            s = byid[hung["script"]]
            # confirm on its own, with time to spare
            l2, s2, h2 = core.run_scripts([s], backends, threads=1, hang=hang + 30)
            if h2:
                op = s["ops"][min(h2["op"], len(s["ops"]) - 1)]
                self.violation("operation %s never returns" % op["op"], {"kind": "script", "script": s, "backends": backends}, HANG_TAGS.get(op["op"], "C17").split())
            else:
                log("NOTE: an operation took longer than %d s but returned when run on its own" % hang)
        v = core.judge(lines)
        heads = [ln for ln in lines if '"op":"script"' in ln]
        runs = summ.get("runs", len(heads))
        self.traces += runs
        self.events += summ.get("ops", len(lines))
        self.transitions += len(lines)
        self.states += len(lines)
        self.evaluations += runs
        for s in sc:
            self.distinct.add(hashlib.sha1(json.dumps(s["ops"], sort_keys=True).encode()).hexdigest())
        self.parts.append({"generated": label, "backends": backends, "scripts": len(sc), "runs_on_real_code": runs, "events_judged_by_TLC": len(lines) - len(heads),
                           "events_executed": summ.get("ops", 0), "runs_identical_to_a_judged_one": runs - len(heads), "s": round(time.time() - t0, 1)})
        if sc:
            self.sample({"script": sc[0]["id"], "ops": sc[0]["ops"][:12], "of": len(sc[0]["ops"])})
        for x in v:
            if "differs" in x["what"] and backends == "arc;arc0":
                x["tags"] = x["tags"] + ["C16"]     # the same history with and without archive cache
            self.violation("%s [%s, operation %d]" % (x["what"], x["backend"], x["op"]),
                           {"kind": "script", "script": byid[x["script"]], "backends": x["backend"] if "differs" not in x["what"] else backends, "at": x["op"], "event": x["event"][:1500]}, x["tags"])


def log(s):
    print(s, flush=True)


def known_findings(pid):
    """lines 'finding: property=<id> match=<regex> -- description' of known-findings.txt"""
    res = []
    p = os.path.join(core.VERIF, "known-findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"finding: property=(\S+) match=(.*?) -- (.*)", ln)
            if m and m.group(1) == pid:
                res.append({"match": m.group(2), "text": m.group(3)})
    return res


SPECIAL = {}


def special(f):
    SPECIAL[f.__name__] = f
    return f


def flaws(c, rnd, mod, cfg, insts, error):
    if rnd or c.quick:
        return
    t0 = time.time()
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(lambda p: core.model_check(mod, cfg(**p), timeout=300, workers=2, expect_error=error), insts))
    c.parts.append({"flawed specifications refuted": [p["flaw"] for p in insts], "s": round(time.time() - t0, 1)})
    log("flawed variants of %s refuted, %.1fs" % (mod, time.time() - t0))


@special
def labels_flaws(c, rnd=0):
    flaws(c, rnd, "Labels", labels_cfg, LABEL_FLAWS, "Invariant Linearizable is violated")


@special
def crash_flaws(c, rnd=0):
    flaws(c, rnd, "Crash", crash_cfg, CRASH_FLAWS, "is violated")


@special
def faults_flaws(c, rnd=0):
    flaws(c, rnd, "Faults", faults_cfg, FAULT_FLAWS, "is violated")


@special
def cache_flaws(c, rnd=0):
    flaws(c, rnd, "ArchiveCache", cache_cfg, CACHE_FLAWS, "is violated")


@special
def sharing_flaws(c, rnd=0):
    flaws(c, rnd, "Sharing", sharing_cfg, SHARING_FLAWS, "is violated")


@special
def stack_flaws(c, rnd=0):
    flaws(c, rnd, "Stack", stack_cfg, STACK_FLAWS, "is violated")


@special
def stacks(c, rnd=0):
    """histories that bring about every combination of rollups, held and cached layers within bounds"""
    t0 = time.time()
    if c.quick:
        plan = [(dict(), 160, "mem;dir"), (dict(n=4, dirs=5, kids=0), 80, "mem;arc")]
    else:
        plan = [(dict(n=3, dirs=5, kids=1), None if rnd == 0 else 1500, "mem"), (dict(n=4, dirs=6, kids=0), 1500, ["mem;dir", "arc", "memnc;mem"][rnd % 3])]
    for (inst, limit, backends) in plan:
        sc, st = core.gen_stack(c.seed + 1000 * rnd, limit=limit, **inst)
        c.states += st["distinct"]
        c.transitions += st["generated"]
        c.parts.append({"model": "GenStack", "instance": inst, "distinct_states": st["distinct"], "generated_states": st["generated"]})
        for j in range(0, len(sc), 1000):
            c.run_scripts(sc[j:j + 1000], backends, "stack %s" % inst)
        log("stacks %s seed %d: %d of %d shapes on %s, %.1fs, violations so far %d" % (inst, c.seed + 1000 * rnd, len(sc), st["distinct"], backends, time.time() - t0, len(c.violations)))


PLAIN = {"pmem": "mem", "pmemnc": "memnc", "pdir": "dir", "pdirnc": "dirnc", "parc": "arc", "praw": "raw"}


def plain(backend):
    """the backend that executes the same operations one after another"""
    return ",".join(PLAIN.get(b, b) for b in backend.split("/")[0].split(","))


@special
def parallel(c, rnd=0):
    """the operations of generated histories executed as concurrently as their dependencies allow, judged by StoreTrace"""
    seed = c.seed + 1000 * rnd
    sets = [("par", 36, "pmem/threads;pmem/tasks;pdir/threads;parc/threads;parc/tasks;smem/threads", 2),
            ("parroll", 28, "pmem/threads;pmem/tasks;pdir/threads;parc/tasks", 2),
            ("parpacks", 20, "pmem,parc/threads;parc,pdir/threads;parc,pmem/tasks", 2)]
    if rnd:
        sets = [("par", 24, ["pmem/threads;pmem/tasks;pmemnc/threads;pdir/tasks", "parc/threads;parc/tasks;praw/threads;praw/tasks", "smem/threads;sdir/threads;sarc/threads;arc/threads;mem/tasks;pdir/threads"][rnd % 3], 4),
                ("parroll", 24, ["pmem/threads;pmem/tasks;pmemnc/tasks", "parc/threads;parc/tasks;praw/tasks", "smem/threads;arc/threads;pdir/threads;pdir/tasks"][rnd % 3], 4),
                ("parpacks", 14, ["pmem,parc/threads;parc,pdir/tasks", "parc,parc/threads;pdir,pmem/threads", "arc,arc/threads;parc,arc/tasks"][rnd % 3], 4)]
    for (profile, num, backends, reps) in sets:
        t0 = time.time()
        sc = core.generate(profile, num, seed)
        byid = {s["id"]: s for s in sc}
        lines = core.run_par(sc, backends, reps, seed, threads=4)
        heads = [ln for ln in lines if '"op":"script"' in ln]
        v = core.judge(lines)
        runs = len(sc) * len(backends.split(";")) * reps
        c.traces += runs
        c.evaluations += runs
        c.states += len(lines)
        c.transitions += len(lines)
        for h in heads:
            c.distinct.add((h, seed))
        c.parts.append({"executed concurrently": profile, "backends": backends, "scripts": len(sc), "runs_on_real_code": runs, "distinct_traces_judged_by_TLC": len(heads),
                        "events_judged_by_TLC": len(lines) - len(heads), "s": round(time.time() - t0, 1)})
        if sc:
            c.sample({"concurrent": sc[0]["id"], "ops": sc[0]["ops"][:10], "of": len(sc[0]["ops"])})
        # what goes wrong without concurrency too is not this property's
        alone = {}
        for x in v:
            k = (x["script"], plain(x["backend"]))
            if k not in alone and len(alone) < 12:
                l2, _, hung = core.run_scripts([byid[k[0]]], k[1], threads=1)
                alone[k] = bool(hung) or bool(core.judge(l2))
        for x in v:
            seq = alone.get((x["script"], plain(x["backend"])))
            c.violation("executed concurrently: %s [%s, event %d]" % (x["what"], x["backend"], x["op"]),
                        {"kind": "par", "script": byid[x["script"]], "backends": x["backend"], "seed": seed, "at": x["op"], "event": x["event"][:1500]},
                        [t for t in x["tags"] if t != "C17"] or ["C01"] if seq else ["C17"])
        log("parallel %s seed %d: %d runs, %d traces, %.1fs, violations so far %d" % (profile, seed, runs, len(heads), time.time() - t0, len(c.violations)))


def crash_runs(c, num, seed, backends, cap, faults=False):
    t0 = time.time()
    sc = core.crash_scripts(num, seed)
    byid = {s["id"]: s for s in sc}
    lines = core.run_crashes(sc, backends, cap, faults=faults)
    heads = [json.loads(ln) for ln in lines if '"op":"script"' in ln]
    points = sum(h.get("points", 0) for h in heads)
    v = core.judge(lines)
    c.traces += len(heads)
    c.events += len(lines)
    c.states += len(lines)
    c.transitions += len(lines)
    c.evaluations += points
    for h in heads:
        c.distinct.add((h["id"], h["backend"], h["n"], h["half"], h["late"], h["second"], h["fault"], seed))
    c.parts.append({"operations with a failing call" if faults else "interrupted operations": dict(collections.Counter(s["ops"][s["at"]]["op"] for s in sc)), "backends": backends, "failing_calls_executed" if faults else "crash_points_executed": points,
                    "distinct_traces_judged_by_TLC": len(heads), "events_judged_by_TLC": len(lines), "s": round(time.time() - t0, 1)})
    if heads:
        c.sample({"interrupted": byid[heads[-1]["id"]]["ops"][-1], "history": byid[heads[-1]["id"]]["ops"][:8], "crash_points": heads[-1]})
    for x in v:
        c.violation("%s [%s, %s change %d of %s%s; event %d]" % (x["what"], x["backend"], ["killed at", "failing", "failing from", "failing", "failing from"][x["head"]["fault"]], x["head"]["n"], byid[x["script"]]["ops"][-1]["op"], (" part way" if x["head"]["half"] else "") + (" and at change %d of its repetition" % x["head"]["second"] if x["head"]["second"] else ""), x["op"]),
                    {"kind": "crash", "script": byid[x["script"]], "backends": x["backend"], "point": x["head"], "event": x["event"][:1500]}, x["tags"])
    log(("faults seed %d: %d operations, %d failing calls on %s, %.1fs, violations so far %d" if faults else "crashes seed %d: %d interrupted operations, %d crash points on %s, %.1fs, violations so far %d") % (seed, len(sc), points, backends, time.time() - t0, len(c.violations)))


@special
def crashes(c, rnd=0):
    if c.quick:
        crash_runs(c, 40, c.seed, "dir;arc", 30)
    else:
        crash_runs(c, 60, c.seed + 1000 * rnd, ["dir;arc", "cdir;raw", "sdir;sarc"][rnd % 3], 200)


@special
def faults(c, rnd=0):
    if c.quick:
        crash_runs(c, 50, c.seed + 7, "dir;arc;cdir", 40, True)
    else:
        crash_runs(c, 60, c.seed + 7 + 1000 * rnd, ["dir;arc;cdir", "cdir;raw;arc", "sdir;sarc;dir"][rnd % 3], 200, True)


def heads(c, rnd, plan, reps=4, delay=250):
    """concurrent histories of head operations on the real code, explained by HeadSpec or not.
    plan: (profile, schedules stepped through, schedules run freely)"""
    seed = c.seed + 1000 * rnd
    for (profile, ngate, nfree) in plan:
        t0 = time.time()
        sc = core.gen_heads(profile, max(ngate, nfree), seed, clients=3 + rnd % 2)
        hist = []
        if ngate:
            hist += core.run_each("heads", sc[:ngate], "mem;dir;cdir", ["--mode", "gate"])
        if nfree:
            hist += core.run_each("heads", sc[-nfree:], "mem;dir;cdir;dir*;arc*", ["--mode", "free", "--reps", str(reps)])
            hist += core.run_each("heads", sc[-nfree:], "dir;dir*;arc*", ["--mode", "free", "--reps", str(reps)],
                                  env=core.shim_env(delay=delay, delay_for=".label", seed=seed))
        v = core.judge_each("HeadTrace", hist)
        n = sum(map(len, hist))
        c.traces += len(hist)
        c.evaluations += len(hist)
        c.states += n
        c.transitions += n
        for h in hist:
            c.distinct.add(hashlib.sha1("\n".join(h).encode()).hexdigest())
        c.parts.append({"concurrent schedules": profile, "schedules": len(sc), "histories_of_real_code": len(hist), "events_judged_by_TLC": n, "s": round(time.time() - t0, 1)})
        if hist:
            c.sample({"history": [json.loads(x) for x in hist[-1][:10]]})
        for x in v:
            h = json.loads(x["hist"][0])
            c.violation("%s [%s, event %d]" % (x["what"], h["backend"], x["at"]),
                        {"kind": "heads", "backend": h["backend"], "script": next((s for s in sc if s["id"] == h["id"]), None), "history": x["hist"][:x["at"] + 2]}, x["tags"])
        log("heads %s seed %d: %d histories, %.1fs, violations so far %d" % (profile, seed, len(hist), time.time() - t0, len(c.violations)))


@special
def caches(c, rnd=0):
    """schedules for the archive cache on the real code, judged by CacheTrace"""
    seed = c.seed + 1000 * rnd
    for (limit, ngate, nfree) in ((1, 400, 150), (0, 40, 20), (2, 120, 40)):
        t0 = time.time()
        sc = core.gen_cache(ngate, seed, limit, clients=3 + rnd % 3, ops=8 + 4 * (rnd % 2), depth=70 if c.quick else 70 + 30 * (rnd % 3))
        hist = [("gate", h) for h in core.run_each("cache", sc, str(limit), ["--mode", "gate", "--limit", "60"])]
        hist += [("free", h) for h in core.run_each("cache", sc[:nfree], str(limit), ["--mode", "free", "--reps", "4", "--limit", "120"])]
        v = core.judge_each("CacheTrace", [h for _, h in hist])
        n = sum(len(h) for _, h in hist)
        c.traces += len(hist)
        c.evaluations += len(hist)
        c.states += n
        c.transitions += n
        for _, h in hist:
            c.distinct.add(hashlib.sha1("\n".join(h[1:]).encode()).hexdigest())
        c.parts.append({"archive cache of": "%d MB" % limit, "schedules": len(sc), "histories_of_real_code": len(hist), "events_judged_by_TLC": n, "s": round(time.time() - t0, 1)})
        if hist:
            c.sample({"cache schedule": sc[0]["sched"][:12], "sizes": sc[0]["sizes"]})
        mode = {id(h): m for m, h in hist}
        for x in v:
            h = json.loads(x["hist"][0])
            c.violation("%s [cache of %d MB, event %d]" % (x["what"], limit, x["at"]),
                        {"kind": "cache", "backend": str(limit), "mode": mode[id(x["hist"])], "script": next((s for s in sc if s["id"] == h["id"]), None), "history": x["hist"][1:x["at"] + 2]}, x["tags"])
        log("cache %d MB seed %d: %d histories, %.1fs, violations so far %d" % (limit, seed, len(hist), time.time() - t0, len(c.violations)))


@special
def heads_all(c, rnd=0):
    heads(c, rnd, [("mixed", 80, 30), ("aba", 60, 25), ("life", 40, 25), ("ff", 30, 20)])


@special
def heads_ff(c, rnd=0):
    heads(c, rnd, [("ff", 120, 40), ("mixed", 50, 20)])


@special
def heads_names(c, rnd=0):
    heads(c, rnd, [("life", 150, 60)])


def run_check(pid, tier, seed):
    c = Ctx(pid, tier, seed)
    q = Q[pid]
    log("%s %s seed %d" % (pid, tier, seed))
    try:
        core.build()
        log("built in %.1fs" % c.elapsed())
        for m in q["models"]:
            c.model(m)
        for s in q["special"]:
            SPECIAL[s](c)
        for (profile, num, backends) in q["runs"]:
            c.scripts(profile, num, backends, seed)
        if tier == "thorough":
            for m in q["deep"]:
                c.model(m)
            rnd = 1
            rot = [ASYNC3, NOCACHE, SYNC, ALLB]
            while c.elapsed() < THOROUGH_S and not c.violations:
                for s in q["special"]:
                    SPECIAL[s](c, rnd)
                for (profile, num, backends) in q["runs"]:
                    if c.elapsed() > THOROUGH_S:
                        break
                    be = backends if "," in backends or rnd % 2 == 0 else rot[(rnd // 2) % len(rot)]
                    c.scripts(profile, num if profile != "big" else num * 2, be, seed + 1000 * rnd, hang=120)
                rnd += 1
        return finish(c)
    finally:
        core.cleanup()


def finish(c):
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    seen = {}
    for v in c.violations:
        k = re.sub(r"\[.*|\d+", "", v["what"])
        seen.setdefault(k, v)
    q = Q[c.pid]
    cov = {"samples": c.samples or ["(nothing ran)"], "parts": c.parts}
    if q["level"] == "model_checking":
        cov.update(states=c.states, transitions=c.transitions, traces_validated_against_impl=c.traces, distinct_scripts=len(c.distinct))
    else:
        cov.update(evaluations=c.evaluations, distinct_nontrivial=len(c.distinct), rule=q.get("rule", ""), states=c.states)
    cov["known_findings_met"] = len(c.known_hit)
    ev = {"property": c.pid, "tier": c.tier, "seed": c.seed, "level": q["level"], "coverage": cov, "wall_s": round(c.elapsed(), 1), "violations": len(c.violations),
          "assumptions": q["assumptions"] + ["bounded exploration: holds for the histories executed", "TLC, the Rust toolchain and the harness are trusted"]}
    with open(os.path.join(core.VERIF, "evidence", c.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    for (m, w) in sorted({(m, "") for (m, w) in c.known_hit}):
        log("KNOWN-FINDING: property=%s %s" % (c.pid, next(k["text"] for k in c.known if k["match"] == m)))
    for t, w in sorted(c.others)[:10]:
        log("note: not this property: %s: %s" % (t, w[:200]))
    if not seen:
        log("%s holds on everything explored (%.0fs)" % (c.pid, c.elapsed()))
        return 0
    os.makedirs(os.path.join(core.VERIF, "replays"), exist_ok=True)
    for k, v in list(seen.items())[:10]:
        d = {"property": c.pid, "what": v["what"], "seed": c.seed}
        d.update(v["replay"])
        body = json.dumps(d, indent=1, ensure_ascii=False)
        path = os.path.join(core.VERIF, "replays", "%s-%s.json" % (c.pid, hashlib.sha1(body.encode()).hexdigest()[:10]))
        with open(path, "w") as f:
            f.write(body)
        log("  " + v["what"][:300])
        log("VIOLATION property=%s replay=%s" % (c.pid, path))
    return 1


def main(argv):
    pid = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        return run_check(pid, tier, seed)
    except ToolError as e:
        print("TOOL ERROR: %s" % e, flush=True)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
