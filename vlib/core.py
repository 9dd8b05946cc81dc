"""Shared machinery of the checks: building the harness, running TLC, generating scripts, judging traces."""
import bisect, json, os, random, re, shutil, string, subprocess, sys, tempfile, time, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPECS = os.path.join(VERIF, "specs")
HARNESS = os.environ.get("TSH_HARNESS", os.path.join(VERIF, "harness"))
TARGET = os.environ.get("TSH_TARGET", os.path.join(VERIF, "target"))
CPUS = min(8, os.cpu_count() or 8)


class ToolError(Exception):
    pass


class Violation(Exception):
    pass


_work = None
_shm = None


def scratch():
    """where the stores of a run live: in memory if possible (nothing here needs a real disk)"""
    global _shm
    if _shm is None:
        base = "/dev/shm"
        try:
            st = os.statvfs(base)
            if st.f_bavail * st.f_frsize < (1 << 30) or not os.access(base, os.W_OK):
                base = work()
        except OSError:
            base = work()
        _shm = tempfile.mkdtemp(prefix="tsh", dir=base)
    return _shm


def work():
    """scratch directory of this run, removed at the end"""
    global _work
    if _work is None:
        base = os.path.join(VERIF, "work")
        os.makedirs(base, exist_ok=True)
        _work = tempfile.mkdtemp(prefix="w", dir=base)
    return _work


def cleanup():
    global _work, _shm
    if _shm:
        shutil.rmtree(_shm, ignore_errors=True)
    if _work and os.environ.get("TSH_KEEP") is None:
        shutil.rmtree(_work, ignore_errors=True)
    _work = _shm = None


def sub(name):
    d = os.path.join(work(), name)
    os.makedirs(d, exist_ok=True)
    return d


def cargo_env():
    """the environment of /opt/vp/env.sh (offline cargo), with our own target directory"""
    env = dict(os.environ)
    try:
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True, timeout=60).stdout
        for kv in out.decode(errors="replace").split("\0"):
            if "=" in kv:
                k, v = kv.split("=", 1)
                env[k] = v
    except Exception:
        pass
    env["CARGO_TARGET_DIR"] = TARGET
    env["CARGO_NET_OFFLINE"] = "true"
    return env


_built = set()


def shim():
    """the file system stand-in (shim/shim.c), compiled"""
    so = os.path.join(TARGET, "tshshim.so")
    src = os.path.join(VERIF, "shim", "shim.c")
    if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src):
        os.makedirs(TARGET, exist_ok=True)
        r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", src, "-o", so + ".%d" % os.getpid(), "-ldl"], capture_output=True, text=True)
        if r.returncode != 0:
            raise ToolError("shim: " + r.stderr[-2000:])
        os.rename(so + ".%d" % os.getpid(), so)
    return so


def shim_env(delay=None, delay_for=None, seed=0, **kw):
    e = {"LD_PRELOAD": shim(), "TSH_SHIM_DIR": scratch(), "TSH_SEED": str(seed)}
    if delay:
        e["TSH_DELAY"] = str(delay)
    if delay_for:
        e["TSH_DELAY_FOR"] = delay_for
    e.update({k: str(v) for k, v in kw.items()})
    return e


def build(features=()):
    key = tuple(features)
    if key in _built:
        return os.path.join(TARGET, "debug", "tsharness")
    cmd = ["cargo", "build", "--offline", "-q"]
    if features:
        cmd += ["--features", ",".join(features)]
    r = subprocess.run(cmd, cwd=HARNESS, env=cargo_env(), capture_output=True, text=True, timeout=850)
    if r.returncode != 0:
        raise ToolError("harness build failed:\n" + r.stderr[-4000:])
    _built.add(key)
    return os.path.join(TARGET, "debug", "tsharness")


def harness(args, timeout=600, env=None, check=True):
    e = cargo_env()
    e["TSH_SCRATCH"] = scratch()
    if env:
        e.update(env)
    r = subprocess.run([build()] + args, capture_output=True, text=True, timeout=timeout, env=e)
    if check and r.returncode not in (0, 4):
        raise ToolError("harness failed (%d): %s %s" % (r.returncode, r.stdout[-2000:], r.stderr[-2000:]))
    return r


# ---------------------------------------------------------------- TLC

def tlc(module, cfg, args=(), workers=1, timeout=600, env=None, specdir=SPECS, heap="3g", name=None):
    """runs TLC; cfg is the text of a config. Returns (returncode, output)"""
    d = tempfile.mkdtemp(prefix="tlc", dir=sub("tlc"))
    c = os.path.join(d, "run.cfg")
    with open(c, "w") as f:
        f.write(cfg)
    e = dict(os.environ)
    if env:
        e.update(env)
    e["JAVA_TOOL_OPTIONS"] = "-Xmx%s -Djava.io.tmpdir=%s" % (heap, d)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Dtlc2.TLC.stopAfter=%d" % max(1, timeout - 5),
           "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC",
           "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-config", c, "-noGenerateSpecTE"] + list(args) + [os.path.join(specdir, module + ".tla")]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, cwd=d, errors="replace")
        out = r.stdout + r.stderr
        rc = r.returncode
    except subprocess.TimeoutExpired as x:
        out = (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
        rc = -1
    shutil.rmtree(d, ignore_errors=True)
    return rc, out


def printed(out, prefix):
    """payloads of PrintT("PREFIX " \\o ToJson(..)) lines"""
    res = []
    for line in out.splitlines():
        if line.startswith('"' + prefix + " "):
            try:
                s = json.loads(line)
            except ValueError:
                s = line[1:-1].replace('\\"', '"').replace("\\\\", "\\")
            res.append(s[len(prefix) + 1:])
    return res


STATS = re.compile(r"(\d[\d,]*) states generated.*?(\d[\d,]*) distinct states found")


def model_check(module, cfg, timeout=300, workers=CPUS, expect_error=None):
    """exhaustive model checking of a specification; a failure is a defect of the specification (tool error)"""
    rc, out = tlc(module, cfg, workers=workers, timeout=timeout)
    m = None
    for m in STATS.finditer(out):
        pass
    gen, dis = (int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))) if m else (0, 0)
    if expect_error is not None:
        if expect_error not in out:
            raise ToolError("%s: expected %r from TLC\n%s" % (module, expect_error, out[-3000:]))
        return {"module": module, "generated": gen, "distinct": dis, "refuted": expect_error}
    if "Model checking completed. No error has been found." not in out:
        raise ToolError("specification %s does not pass (rc %d):\n%s" % (module, rc, out[-4000:]))
    return {"module": module, "generated": gen, "distinct": dis}


# ---------------------------------------------------------------- scripts

def generate(profile, num, seed, depth=None, procs=4):
    """operation scripts from random walks of the specification (Gen.tla)"""
    p = dict(PROFILES[profile])
    if depth:
        p["Depth"] = depth
    d = sub("gen")
    mod = "GenW_%s" % profile
    with open(os.path.join(d, mod + ".tla"), "w") as f:
        f.write("---- MODULE %s ----\nEXTENDS Gen\nW == <<%s>>\n====\n" % (mod, ", ".join('"%s"' % k for k in p["weights"])))
    for m in ("Gen", "TerminusStore"):
        shutil.copy(os.path.join(SPECS, m + ".tla"), d)
    cfg = "CONSTANTS NNodes = %(nodes)d NPreds = %(preds)d NVals = %(vals)d Depth = %(Depth)d MaxL = %(maxl)d NStores = %(stores)d NNames = %(names)d Bulk = %(bulk)d\nWeights <- W\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" % p
    procs = max(1, min(procs, num // 20 or 1))
    per = (num + procs - 1) // procs

    def one(j):
        rc, out = tlc(mod, cfg, args=["-simulate", "num=%d" % per, "-depth", str(p["Depth"] + 5), "-seed", str(seed * 1000 + j)], timeout=500, specdir=d)
        sc = printed(out, "SCRIPT")
        if not sc:
            raise ToolError("no scripts generated:\n" + out[-3000:])
        return sc
    with ThreadPoolExecutor(procs) as ex:
        allsc = [s for part in ex.map(one, range(procs)) for s in part]
    res = []
    for j, s in enumerate(allsc[:num]):
        o = json.loads(s)
        o["id"] = "%s-%d-%d" % (profile, seed, j)
        res.append(concretize(o, random.Random("%s/%s/%d" % (profile, seed, j))))
    return res


def random_changes(rnd, n):
    """what n layers, each on top of the one before, add and remove (Changes of Stack.tla)"""
    live, res, old = set(), [], []
    for j in range(n):
        fresh = {(rnd.randrange(7), rnd.randrange(4), rnd.choice([rnd.randrange(7), 100 + rnd.randrange(5)])) for _ in range(rnd.choice([0, 1, 2, 2, 3]) if j else 3)}
        if old and rnd.random() < 0.6:
            fresh.add(rnd.choice(old))
        gone = {t for t in sorted(live) if rnd.random() < 0.4}
        if rnd.random() < 0.1:
            gone.add((rnd.randrange(7), rnd.randrange(4), rnd.randrange(7)))
        gone -= fresh
        old += sorted(gone) + sorted(fresh)
        live = (live - gone) | fresh
        fmt = lambda s: "{" + ", ".join("<<%d, %d, %d>>" % t for t in sorted(s)) + "}"
        res.append("[a |-> %s, r |-> %s]" % (fmt(fresh), fmt(gone)))
    return "<<%s>>" % ", ".join(res)


STACK_CFG = """CONSTANTS N = %d MaxDirs = %d MaxKids = %d Flaw = "%s"
Changes <- %s
SPECIFICATION Spec
VIEW rep
INVARIANTS HeldRight CacheRight LoadRight ChangesRight RollupsApart%s
CHECK_DEADLOCK FALSE
"""


def gen_stack(seed, n=3, dirs=5, kids=1, limit=None, timeout=400):
    """a history for each combination of rollups, held and cached layers (GenStack.tla); a random choice of limit of them"""
    rnd = random.Random("stack/%d" % seed)
    d = sub("genstack")
    with open(os.path.join(d, "GenStackW.tla"), "w") as f:
        f.write("---- MODULE GenStackW ----\nEXTENDS GenStack\nC == %s\n====\n" % random_changes(rnd, n + kids))
    for m in ("GenStack", "Stack"):
        shutil.copy(os.path.join(SPECS, m + ".tla"), d)
    rc, out = tlc("GenStackW", STACK_CFG % (n, dirs, kids, "none", "C", " Emit"), timeout=timeout, specdir=d, heap="6g")
    if "Model checking completed. No error has been found." not in out:
        raise ToolError("GenStack (rc %d):\n%s" % (rc, re.sub(r'"SCRIPT .*\n', "", out)[-3000:]))
    m = list(STATS.finditer(out))[-1]
    stats = {"generated": int(m.group(1).replace(",", "")), "distinct": int(m.group(2).replace(",", ""))}
    got = printed(out, "SCRIPT")
    del out
    if limit and len(got) > limit:
        got = [got[j] for j in sorted(rnd.sample(range(len(got)), limit))]
    res = []
    for j, s in enumerate(got):
        o = json.loads(s)
        ls = []
        for op in o["ops"]:
            op["st"] = 0
            if "t" in op:
                t = op["t"]
                op["t"] = ["N%d" % (t[0] + 1), "P%d" % (t[1] + 1), "V%d" % (t[2] - 99) if t[2] >= 100 else "N%d" % (t[2] + 1)]
                op["form"] = "id" if rnd.random() < 0.5 else "val"
            if op["op"] == "obs":
                op["old"] = False
            if op["op"] == "commit":
                op["noload"] = False
                ls.append(op["l"])
            if "n" in op:
                ls.append(op["n"])
        obs = lambda old: [{"op": "obs", "l": l, "st": 0, "old": old} for l in ls]
        o["ops"] += obs(True) + [{"op": "lstore", "l": l, "a": 0, "st": 0} for l in ls] + obs(False) + [{"op": "dropall"}] + obs(False) + [{"op": "ancestors", "ls": ls, "st": 0}, {"op": "reopen"}] + obs(False)
        o["id"] = "stack-%d-%d" % (seed, j)
        res.append(concretize(o, random.Random("stack/%d/%d" % (seed, j))))
    return res, stats


WORDS = ["a", "b", "aa", "ab", "cow", "cows", "co", "duck", "dück", "鸭", "quack", "x y", "http://example.org/ns#thing", "http://example.org/ns#thing2",
         "terminusdb:///data/Person/jane", "terminusdb:///data/Person/john", "Z", "_", "0", "1", "true", "\u0001", "zz" * 40, "emoji\U0001F600", "é", "e\u0301", ".", "a.b", "~", "A"]
VALUES = ["s:a", "s:b", "s:", "s:moo", "s:mooo", "s:dück", "s:1", "s:3", "s:true", "s:" + "long " * 60, "s:\n", "s:\u0000x", "u8:3", "u8:0", "u8:255", "u32:3", "u32:4000000000",
          "u64:18446744073709551615", "u64:3", "u16:3", "i32:-5", "i32:3", "i32:2147483647", "i32:-2147483648", "i64:-5", "i64:9000000000000000000", "f64:1.5", "f64:-1.5", "f64:0", "f64:1e300", "f64:3",
          "b:true", "b:false", "uri:http://example.org/a", "uri:a", "uri:cow", "s:cow"]


def concretize(script, rnd):
    """gives the abstract terms of a generated script concrete ones (injectively; another choice per script)"""
    m = {}
    style = rnd.randrange(4)
    large = any(o["op"] == "many" for o in script["ops"])
    wn, wp, vs = WORDS[:], WORDS[:], VALUES[:]
    rnd.shuffle(wn), rnd.shuffle(wp), rnd.shuffle(vs)
    if rnd.randrange(6) == 0:
        wn.insert(0, "")

    def tail(t):
        """long ends of terms in large layers: such that compress well, such that hardly do, and a few very long ones"""
        j = int(t[1:])
        if style % 2:
            return " long" * (j * 7 % 60)
        r = random.Random(t)
        return "".join(r.choice(string.ascii_letters + string.digits) for _ in range(12000 if j == 9 else 20 + j * 7 % 100))

    def name(t):
        if t in m:
            return m[t]
        k, j = t[0], int(t[1:])
        if k == "N":
            if style == 0:
                w = "%s" % chr(ord("a") + (j * 7) % 26) + ("" if j < 26 else str(j))
            elif style == 1:
                w = "node%d" % j
            else:
                w = wn[j - 1] if j <= len(wn) else "node%d" % j
            m[t] = "n:" + w + (tail(t) if large else "")
        elif k == "P":
            m[t] = ("p%d" % j) if style < 2 or j > len(wp) else wp[j - 1]
        else:
            m[t] = ("s:value%d" % j + (tail(t) if large else "")) if style == 0 or j > len(vs) else vs[j - 1]
        return m[t]
    for op in script["ops"]:
        if "t" in op:
            op["t"] = [name(x) for x in op["t"]]
        for f in ("adds", "rems"):
            if f in op:
                op[f] = [[name(x) for x in t] for t in op[f]]
    names = {}
    pool = ["", "db", "main", "main.label", "a b", ".hidden", "dük", "db.", "Main", "x" * 100, "%2e", "-", "db1", "db2", ".", "..", "a\nb", " ", "db.new", "a\\b", "0", "x.label.label"]
    rnd.shuffle(pool)
    for op in script["ops"]:
        if "name" in op:
            if op["name"] not in names:
                names[op["name"]] = pool[len(names)] if rnd else op["name"]
            op["name"] = names[op["name"]]
    return script


def W(**kw):
    return [k for k, n in kw.items() for _ in range(n)]


BASEP = dict(nodes=5, preds=2, vals=3, Depth=30, maxl=8, stores=1, names=2, bulk=5)


def prof(_w, **kw):
    d = dict(BASEP)
    d.update(kw)
    d["weights"] = _w
    return d


PROFILES = {
    # plain building of layer stacks, all kinds of requests, several builders at a time
    "build": prof(W(lstore=1, base=1, child=3, add=6, rem=5, bulk=2, bulkrem=1, commit=4, layer=3, obs=1, obsold=1, dropall=1, again=1, bname=1, dropb=1), Depth=36, preds=4),
    # many layers, all maintenance
    "maint": prof(W(lstore=1, layer=12, squash=1, squash_upto=2, merge=1, rollup=2, rollup_upto=3, irollup_upto=2, obs=2, dropall=2, obsall=1, reopen=1, drop=1, child=1, add=1, commit=1, delta=1, diff=1), Depth=24, maxl=10),
    "rollup": prof(W(lstore=1, layer=10, rollup=3, rollup_upto=4, irollup_upto=3, obs=1, dropall=2, obsall=1, drop=2, obsold=1, squash_upto=1), Depth=24, maxl=9),
    "squash": prof(W(lstore=1, layer=9, squash=3, squash_upto=4, rollup=1, rollup_upto=1, dropall=1, obs=1), Depth=20, maxl=10),
    "merge": prof(W(lstore=1, layer=3, base=4, bulk=5, commit=5, merge=4, squash=1, rollup=1, dropall=1, obs=1), Depth=28, maxl=9, nodes=7, vals=4),
    "delta": prof(W(lstore=1, layer=6, base=1, child=4, delta=4, diff=4, add=2, rem=2, commit=5, rollup=1, rollup_upto=1, squash=1, squash_upto=1, dropall=1), Depth=28, maxl=9),
    # differences and deltas between layers on top of the same layer, which give the same ids to terms of their own
    "siblings": prof(W(layer=2, siblings=5, squash_upto=1, rollup_upto=1, rollup=1, dropall=1), Depth=8, maxl=11, nodes=6, preds=1, vals=2, bulk=2),
    "dbs": prof(W(aba=2, layer=4, create=4, open=2, delete=2, gdelete=1, labels=2, head=4, sethead=6, force=3, forcev=4, lget=4, lset=4, lclear=2, rollup=1, rollup_upto=1, reopen=1, ancestor=1), Depth=45, names=3, maxl=7, bulk=2),
    # heads moved along histories that maintenance has been at
    "ff": prof(W(layer=8, create=2, sethead=9, force=3, rollup=1, rollup_upto=3, irollup_upto=2, squash_upto=1, ancestor=5, head=2, dropall=1, reopen=1), Depth=36, names=2, maxl=8, bulk=2),
    "packs": prof(W(lstore=1, layer=8, export=3, import_=4, rollup=1, rollup_upto=1, squash=1, squash_upto=1, merge=1, reopen=1, dropall=1, obsall=1, get=2, child=1, add=1, commit=1, layers=1), Depth=30, stores=2, maxl=8),
    "all": prof(W(lstore=1, layer=8, base=1, child=2, againbulk=1, add=3, rem=2, commit=2, squash=1, squash_upto=1, merge=1, rollup=1, rollup_upto=1, irollup_upto=1, delta=1, diff=1, create=2, sethead=3, force=1, forcev=1, delete=1, head=1, labels=1, lget=1, lset=1, lclear=1, reopen=2, dropall=1, drop=1, get=1, getrandom=1, layers=1, ancestor=1, again=1, bname=1, dropb=1, obsold=1, export=1, import_=1), Depth=45, maxl=8),
    # short histories to be interrupted
    "crash": prof(W(layer=10, base=1, child=1, add=1, rem=1, commit=1, squash=2, squash_upto=2, merge=2, rollup=2, rollup_upto=3, irollup_upto=2, delta=1, create=1, sethead=2), Depth=12, maxl=8, bulk=3),
    "crashdb": prof(W(layer=4, create=4, delete=2, gdelete=1, sethead=6, force=3, forcev=3, lget=3, lset=3, lclear=2), Depth=16, names=3, maxl=5, bulk=2),
    # wide histories to be executed concurrently
    "par": prof(W(lstore=2, layer=12, base=1, child=3, add=3, rem=2, commit=3, squash=2, squash_upto=3, merge=2, rollup=4, rollup_upto=5, irollup_upto=3, delta=1, diff=1, again=1, bname=1, obs=3, obsall=1, obsold=1, dropall=4, drop=2, layers=2, ancestor=1, get=1, reopen=1, export=1, import_=1), Depth=34, maxl=12, nodes=6),
    "parpacks": prof(W(layer=10, squash=1, squash_upto=1, rollup=2, rollup_upto=2, export=3, import_=5, dropall=2, obsall=1, get=1, layers=1), Depth=28, stores=2, maxl=9),
    # large layers, long terms
    "huge": prof(W(layer=6, squash=1, squash_upto=1, merge=1, rollup=1, rollup_upto=1, dropall=1, delta=1, reopen=1), Depth=7, nodes=500, preds=25, vals=400, maxl=4, bulk=1500),
    "hugepacks": prof(W(layer=2, export=3, import_=5, rollup=1), Depth=20, nodes=500, preds=25, vals=300, maxl=3, bulk=1200, stores=2),
    # many small layers in one store
    "many": prof(W(layer=30, dropall=1), Depth=240, nodes=3, preds=1, vals=2, maxl=230, bulk=1),
    # one database, updated often
    "versions": prof(W(layer=3, create=2, sethead=8, force=6, forcev=8, lget=5, lset=5, lclear=1, head=4, reopen=1), Depth=90, names=1, maxl=5, bulk=1),
    # few layers, loaded again and again while they are rolled up
    "parroll": prof(W(layer=5, rollup=2, rollup_upto=8, irollup_upto=2, obs=9, dropall=6), Depth=44, maxl=5, nodes=4, bulk=3),
    # larger vocabularies: dictionary blocks, wide predicates
    "big": prof(W(layer=10, squash=1, squash_upto=1, merge=1, rollup=1, rollup_upto=1, dropall=1, delta=1), Depth=10, nodes=40, preds=9, vals=30, maxl=5, bulk=60),
}
for _p in PROFILES.values():
    _p["weights"] = [w.rstrip("_") for w in _p["weights"]]


# ---------------------------------------------------------------- traces

def run_scripts(scripts, backends, threads=CPUS, hang=60, timeout=700, tag="t"):
    """runs scripts on the real library; returns (trace lines, summary, hangs)"""
    sf, of = os.path.join(work(), tag + ".scripts"), os.path.join(work(), tag + ".trace")
    with open(sf, "w") as f:
        for s in scripts:
            f.write(json.dumps(s) + "\n")
    r = harness(["run", "--scripts", sf, "--out", of, "--backends", backends, "--threads", str(threads), "--hang", str(hang)], timeout=timeout)
    hang_info = None
    for line in r.stdout.splitlines():
        if line.startswith("HANG "):
            hang_info = json.loads(line[5:])
    summary = json.loads(r.stdout.splitlines()[-1]) if r.returncode == 0 else {}
    with open(of) as f:
        lines = f.read().splitlines()
    os.unlink(sf), os.unlink(of)
    return lines, summary, hang_info


TRACE_CFG = "SPECIFICATION TraceSpec\nCONSTRAINT Accepted\nPOSTCONDITION AllConsumed\nVIEW View\nINVARIANT TraceInv\nCHECK_DEADLOCK FALSE\n"


def judge(lines, timeout=700, procs=CPUS):
    """checks trace lines against StoreTrace.tla; returns violations [{tags, what, script, backend, op}]"""
    runs, cur = [], None
    for ln in lines:
        if ln.startswith('{"backend"') and '"op":"script"' in ln:
            cur = []
            runs.append(cur)
        cur.append(ln)
    procs = max(1, min(procs, len(runs)))
    chunks = [[] for _ in range(procs)]
    sizes = [0] * procs
    for r in sorted(runs, key=lambda r: -sum(map(len, r))):
        j = sizes.index(min(sizes))
        chunks[j].append(r)
        sizes[j] += sum(map(len, r))
    d = sub("traces")

    def one(j):
        flat = [ln for r in chunks[j] for ln in r]
        if not flat:
            return []
        f = os.path.join(d, "c%d.ndjson" % j)
        with open(f, "w") as fh:
            fh.write("\n".join(flat) + "\n")
        rc, out = tlc("StoreTrace", TRACE_CFG, timeout=timeout, env={"TRACE": f}, heap="3g")
        done = [ln for ln in out.splitlines() if ln.startswith('"DONE ')]
        m = re.match(r'"DONE (\d+) (\d+)"', done[-1]) if done else None
        if not m or int(m.group(1)) != int(m.group(2)) + 1 or int(m.group(2)) != len(flat):
            raise ToolError("trace not consumed (rc %d): %s\n%s" % (rc, done, out[-4000:]))
        os.unlink(f)
        res = []
        # where a process was killed, the outcomes possible are followed separately (alt); a run is wrong if all are contradicted
        starts = [x for x, ln in enumerate(flat) if '"op":"script"' in ln]
        run_of = lambda line: starts[bisect.bisect_right(starts, line - 1) - 1]
        alts = {}
        for a in printed(out, "ALT"):
            a = json.loads(a)
            alts.setdefault(run_of(a["line"]), set()).add(a["alt"])
        viols = {}
        for v in printed(out, "VIOL"):
            v = json.loads(v)
            viols.setdefault(run_of(v["line"]), []).append(v)
        chosen = []
        for r, vs in viols.items():
            al = alts.get(r, set()) | {1}
            leaves = [a for a in al if not ({2 * a, 2 * a + 1} & al)]
            best = min(([v for v in vs if v["alt"] in {a >> j for j in range(a.bit_length())}] for a in sorted(leaves)), key=len)
            chosen += best
        for v in chosen:
            k = v["line"] - 1
            s = k
            while not ('"op":"script"' in flat[s]):
                s -= 1
            head = json.loads(flat[s])
            res.append({"tags": v["tags"], "what": v["what"], "script": head["id"], "backend": head["backend"], "op": k - s - 1, "head": head,
                        "event": flat[k][:3000]})
        return res
    with ThreadPoolExecutor(procs) as ex:
        return [v for part in ex.map(one, range(procs)) for v in part]


# ---------------------------------------------------------------- crashes

def run_par(scripts, backends, reps, seed, timeout=800, threads=3):
    """executes scripts concurrently (harness par); trace lines"""
    f, o = os.path.join(work(), "par.scripts"), os.path.join(work(), "par.trace")
    with open(f, "w") as fh:
        for s in scripts:
            fh.write(json.dumps(s) + "\n")
    harness(["par", "--scripts", f, "--out", o, "--backends", backends, "--threads", str(threads), "--reps", str(reps), "--seed", str(seed), "--limit", str(timeout - 100)], timeout=timeout)
    with open(o) as fh:
        lines = [ln for ln in fh.read().splitlines() if '"e":"hist"' not in ln]
    os.unlink(f), os.unlink(o)
    if lines and not lines[0].startswith('{"backend"'):
        raise ToolError("harness: " + lines[0])
    return lines


CRASH_OPS = ("commit", "squash", "squash_upto", "merge", "rollup", "rollup_upto", "irollup_upto", "create", "delete", "gdelete", "sethead", "force", "forcev",
             "lset", "lclear", "import", "base", "child")
CRASH_W = {"commit": 5, "rollup": 3, "rollup_upto": 3, "irollup_upto": 3, "squash": 2, "squash_upto": 2, "merge": 2, "import": 5, "base": 1, "child": 1}


def effective(ops):
    """for every operation of a generated history: whether it is one that has something to write"""
    dbs, there, packs, bst, res = {}, {}, {}, {}, []
    for o in ops:
        st, ok = o.get("st", 0), True
        db = (st, o.get("name"))
        if o["op"] == "create":
            ok = not dbs.get(db)
            dbs[db] = True
        elif o["op"] in ("delete", "gdelete"):
            ok = dbs.pop(db, False)
        elif o["op"] in ("sethead", "force", "forcev", "lset", "lclear"):
            ok = dbs.get(db, False)
        elif o["op"] in ("base", "child"):
            bst[o["b"]] = st
        elif o["op"] == "commit":
            there.setdefault(bst.get(o["b"], 0), set()).add(o["l"])
        elif o["op"] in ("squash", "squash_upto", "merge"):
            there.setdefault(st, set()).add(o["n"])
        elif o["op"] == "export":
            packs[o["x"]] = set(o["ls"]) & there.get(st, set())
        elif o["op"] == "import":
            new = (packs.get(o["x"], set()) & set(o["ls"])) - there.setdefault(st, set())
            ok = len(new) > 1
            there[st] |= new
        res.append(bool(ok))
    return res


def crash_scripts(num, seed, profiles=("crash", "crashdb", "packs")):
    """generated scripts cut after an operation, during which the process is to be killed"""
    rnd = random.Random("crash/%d" % seed)
    good, poor = {}, {}
    for p in profiles:
        for s in generate(p, num, seed):
            ops = s["ops"] = [o for o in s["ops"] if o["op"] not in ("obs", "layers", "labels", "get", "getrandom", "head", "lstore", "ancestor", "open")]
            for k, (o, eff) in enumerate(zip(ops, effective(ops))):
                if o["op"] in CRASH_OPS:
                    (good if eff else poor).setdefault(o["op"], []).append((s, k))
    res, turns = [], []
    while len(res) < num and (any(good.values()) or any(poor.values())):
        if not turns:
            # every kind of operation gets its turns
            turns = [k for k in sorted(set(good) | set(poor)) for _ in range(CRASH_W.get(k, 2))]
            rnd.shuffle(turns)
        kd = turns.pop()
        a, b = good.get(kd), poor.get(kd)
        cand = a if a and (not b or rnd.random() < 0.85) else b
        if not cand:
            continue
        s, k = cand.pop(rnd.randrange(len(cand)))
        res.append({"id": "%s@%d" % (s["id"], k), "ops": s["ops"][:k + 1], "at": k})
    return res


def run_crashes(scripts, backends, cap=60, timeout=800, faults=False):
    f, o = os.path.join(work(), "crash.scripts"), os.path.join(work(), "crash.trace")
    with open(f, "w") as fh:
        for s in scripts:
            fh.write(json.dumps(s) + "\n")
    harness(["crash", "--scripts", f, "--out", o, "--backends", backends, "--threads", str(CPUS), "--shim", shim(), "--cap", str(cap), "--limit", str(timeout - 100)] + (["--faults"] if faults else []), timeout=timeout)
    with open(o) as fh:
        lines = fh.read().splitlines()
    os.unlink(f), os.unlink(o)
    return lines


# ---------------------------------------------------------------- concurrent histories

HEAD_W = {
    "mixed": W(sethead=6, force=3, forcev=4, head=3, headl=1, lget=2, lset=4, lclear=1),
    "life": W(create=4, delete=2, gdelete=1, open=2, listed=2, sethead=3, force=2, head=3, lget=2, lset=2, forcev=1),
    "aba": W(create=4, delete=3, force=4, lget=3, lset=4, sethead=2, head=1, forcev=1),
    "ff": W(sethead=10, head=2, force=1, lget=1, lset=1),
}


def gen_heads(profile, num, seed, clients=3, nlayers=6, ops=4, start=True, depth=60):
    """schedules of head operations: random walks of Labels.tla (GenHeads.tla)"""
    d = sub("gen")
    mod = "GenHW_%s" % profile
    with open(os.path.join(d, mod + ".tla"), "w") as f:
        f.write("---- MODULE %s ----\nEXTENDS GenHeads\nHW == <<%s>>\n====\n" % (mod, ", ".join('"%s"' % k for k in HEAD_W[profile])))
    for m in ("GenHeads", "Labels", "HeadSpec"):
        shutil.copy(os.path.join(SPECS, m + ".tla"), d)
    cfg = ('CONSTANTS Kind = "mem" Clients = {%s} NLayers = %d MaxOps = %d OpKinds = {} Crashes = 0 Flaw = "none" StartDb = %s Depth = %d\nWeights <- HW\nSPECIFICATION GSpec\nINVARIANT Linearizable\nCHECK_DEADLOCK FALSE\n'
           % (", ".join(map(str, range(1, clients + 1))), nlayers, ops, "TRUE" if start else "FALSE", depth))
    procs = 4
    per = (num + procs - 1) // procs

    def one(j):
        rc, out = tlc(mod, cfg, args=["-simulate", "num=%d" % per, "-depth", str(depth + 5), "-seed", str(seed * 1000 + j)], timeout=500, specdir=d)
        sc = printed(out, "SCRIPT")
        if not sc:
            raise ToolError("no schedules generated:\n" + out[-3000:])
        return sc
    with ThreadPoolExecutor(procs) as ex:
        allsc = [s for part in ex.map(one, range(procs)) for s in part]
    rnd = random.Random("heads/%s/%d" % (profile, seed))
    res = []
    for j, s in enumerate(allsc[:num]):
        o = json.loads(s)
        o["id"] = "%s-%d-%d" % (profile, seed, j)
        o["rolled"] = sorted(rnd.sample(range(1, nlayers + 1), rnd.choice([0, 0, 1, 2, 3])))
        o["db"] = rnd.choice(["db", "", "main db", "a.label", "dük"])
        res.append(o)
    return res


CACHE_W = ["get"] * 6 + ["piece"] * 4 + ["store"] * 4 + ["from", "from", "psize", "parent", "exists", "fexists", "size"]


def gen_cache(num, seed, limit=1, clients=3, ops=8, depth=70):
    """schedules for the archive cache: random walks of ArchiveCache.tla (GenCache.tla)"""
    d = sub("gen")
    rnd = random.Random("cache/%d/%d" % (limit, seed))
    procs = 8
    per = (num + procs - 1) // procs
    units = limit * 8

    def one(j):
        nids = j_nids[j]
        mod = "GenCW_%d_%d" % (limit, j)
        with open(os.path.join(d, mod + ".tla"), "w") as f:
            f.write("---- MODULE %s ----\nEXTENDS GenCache\nCW == <<%s>>\nCS == <<%s>>\n====\n" % (mod, ", ".join('"%s"' % k for k in CACHE_W), ", ".join(map(str, j_sizes[j]))))
        cfg = ('CONSTANTS Clients = {%s} Ids = {%s} MaxOps = %d Fails = 4 Cancels = 3 Flaw = "none" Limit = %d InitStored = {%s} Depth = %d\nSizes <- CS\nWeights <- CW\nSPECIFICATION GSpec\n'
               'INVARIANTS Explained Bounded NotTooLarge OnceEach\nCHECK_DEADLOCK FALSE\n'
               % (", ".join(map(str, range(1, clients + 1))), ", ".join(map(str, range(1, nids + 1))), ops, units, ", ".join(map(str, j_stored[j])), depth))
        rc, out = tlc(mod, cfg, args=["-simulate", "num=%d" % per, "-depth", str(depth + 5), "-seed", str(seed * 1000 + j)], timeout=500, specdir=d)
        sc = printed(out, "SCRIPT")
        if not sc:
            raise ToolError("no schedules generated:\n" + out[-3000:])
        return sc
    for m in ("GenCache", "ArchiveCache", "CacheSpec"):
        shutil.copy(os.path.join(SPECS, m + ".tla"), d)
    # sizes: some layers together just fit, some are exactly as large as the limit, some are larger
    j_nids = [rnd.randint(3, 7) for _ in range(procs)]
    j_sizes = [[rnd.choice([1, 2, 3, 4, 5, 6, 7, 8, 8, 9, 11] if limit == 1 else [3, 5, 8, 11, 16, 17]) if limit else rnd.randint(1, 3) for _ in range(n)] for n in j_nids]
    j_stored = [sorted(rnd.sample(range(1, n + 1), rnd.randint(n // 2, n))) for n in j_nids]
    with ThreadPoolExecutor(4) as ex:
        allsc = [s for part in ex.map(one, range(procs)) for s in part]
    res = []
    for j, s in enumerate(allsc[:num] if num >= len(allsc) else rnd.sample(allsc, num)):
        o = json.loads(s)
        o["id"] = "cache%d-%d-%d" % (limit, seed, j)
        o["extra"] = [rnd.choice([0, 0, 1, 1, -1]) for _ in o["sizes"]]
        res.append(o)
    return res


def run_each(cmd, scripts, backends, extra=(), timeout=600, env=None, threads=CPUS):
    """harness command working through scripts x backends; returns histories (lists of event lines)"""
    f, o = os.path.join(work(), cmd + ".scripts"), os.path.join(work(), cmd + ".trace")
    with open(f, "w") as fh:
        for s in scripts:
            fh.write(json.dumps(s) + "\n")
    harness([cmd, "--scripts", f, "--out", o, "--backends", backends, "--threads", str(threads)] + list(extra), timeout=timeout, env=env)
    hist = []
    with open(o) as fh:
        for ln in fh:
            ln = ln.rstrip("\n")
            if '"e":"hist"' in ln:
                hist.append([])
            hist[-1].append(ln)
    os.unlink(f), os.unlink(o)
    return hist


EACH_CFG = "SPECIFICATION Spec\nCONSTRAINT Accepted\nPOSTCONDITION AllConsumed\nVIEW View\nCHECK_DEADLOCK FALSE\n"


def judge_each(module, hist, timeout=600, procs=CPUS, cfg=EACH_CFG):
    """TLC judges recorded histories against a trace specification; returns [{tags, what, hist, at}]"""
    procs = max(1, min(procs, len(hist)))
    d = sub("traces")

    def one(j):
        mine = hist[j::procs]
        flat = [ln for h in mine for ln in h]
        starts = [k for k, ln in enumerate(flat) if '"e":"hist"' in ln]
        f = os.path.join(d, "%s%d.ndjson" % (module, j))
        with open(f, "w") as fh:
            fh.write("\n".join(flat) + "\n")
        rc, out = tlc(module, cfg, timeout=timeout, env={"TRACE": f}, heap="3g")
        done = [ln for ln in out.splitlines() if ln.startswith('"DONE ')]
        m = re.match(r'"DONE (\d+) (\d+)"', done[-1]) if done else None
        if not m or int(m.group(1)) != int(m.group(2)) + 1 or int(m.group(2)) != len(flat):
            raise ToolError("trace not consumed by %s (rc %d): %s\n%s" % (module, rc, done, out[-4000:]))
        res = []
        for v in printed(out, "VIOL"):
            v = json.loads(v)
            k = max(x for x in range(len(starts)) if starts[x] <= v["line"] - 1)
            res.append({"tags": v["tags"], "what": v["what"], "hist": mine[k], "at": v["line"] - 1 - starts[k]})
        return res
    with ThreadPoolExecutor(procs) as ex:
        return [v for part in ex.map(one, range(procs)) for v in part]
