"""Shared plumbing: building idlc, running TLC, evidence, verdicts.  No expectation about
the compiler lives here: expectations are TLA+ (../spec)."""
import os, sys, json, subprocess, tempfile, shutil, time, atexit, random, hashlib, glob, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MINK_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, ".build")
TARGET = "target" + ("" if REPO == "/repo" else "-" + re.sub(r"\W+", "_", REPO))   # cargo tells workspaces apart only by what is in them
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
NCPU = int(os.environ.get("MINK_CPUS", 0)) or os.cpu_count() or 4
os.environ["RUST_BACKTRACE"] = "0"
T0 = time.time()

class ToolError(Exception):
    pass

_tmp = None
def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="mink-")
        if not os.environ.get("MINK_KEEP"):
            atexit.register(lambda: shutil.rmtree(_tmp, ignore_errors=True))
        else:
            print("scratch", _tmp, file=sys.stderr)
    return _tmp

def scratch(name):
    d = os.path.join(tmpdir(), name)
    os.makedirs(d, exist_ok=True)
    return d

def cargo_env():
    e = dict(os.environ)
    e.update(HOME="/root", PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", CARGO_PROFILE_DEV_DEBUG="0", RUSTC_WRAPPER="")
    for k in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CFLAGS", "LD_LIBRARY_PATH"):
        e.pop(k, None)
    return e

def build_idlc(release=False):
    """Build the compiler from /repo's working tree; returns the path of the binary."""
    tgt = os.path.join(BUILD, TARGET)
    e = cargo_env(); e["CARGO_TARGET_DIR"] = tgt
    cmd = ["cargo", "build", "--offline", "-p", "idlc"] + (["--release"] if release else [])
    p = subprocess.run(cmd, cwd=REPO, env=e, capture_output=True, text=True)
    if p.returncode:
        raise ToolError("idlc does not build:\n" + p.stderr[-3000:])
    src = os.path.join(tgt, "release" if release else "debug", "idlc")
    dst = os.path.join(tmpdir(), "idlc-release" if release else "idlc-debug")
    if not os.path.exists(dst):
        shutil.copy2(src, dst)
    return dst

def pmap(f, xs, n=None):
    xs = list(xs)
    if not xs: return []
    with ThreadPoolExecutor(n or NCPU) as ex:
        return list(ex.map(f, xs))

def pfork(f, xs):
    """like pmap, in processes: for work done in Python itself"""
    import multiprocessing as mp
    from concurrent.futures import ProcessPoolExecutor
    xs = list(xs)
    if not xs: return []
    with ProcessPoolExecutor(NCPU, mp_context=mp.get_context("fork")) as ex:
        return list(ex.map(f, xs, chunksize=4))

def run(cmd, timeout=60, **kw):
    """returns (rc, out, err); rc = -signal for a signal, 'timeout' on timeout"""
    try:
        p = subprocess.run(cmd, capture_output=True, timeout=timeout, **kw)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as ex:
        return "timeout", ex.stdout or b"", ex.stderr or b""

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class TlcResult:
    def __init__(s, rc, out, d):
        s.rc, s.out, s.dir = rc, out, d
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        s.generated = int(m.group(1)) if m else 0
        s.distinct = int(m.group(2)) if m else 0
    def json(s, name):
        with open(os.path.join(s.dir, name)) as f:
            return json.load(f)

_tlcn = 0
def tlc(module, cfg, data=None, workers=1, timeout=600, extra=(), heap="2g", want_ok=True, name=None):
    """Run TLC on spec/<module>.tla with configuration text cfg; data: name -> object written as JSON."""
    global _tlcn
    _tlcn += 1
    d = scratch(f"tlc{_tlcn}-{name or module}")
    for f in glob.glob(os.path.join(SPEC, "*.tla")):
        shutil.copy(f, d)
    for k, v in (data or {}).items():
        with open(os.path.join(d, k), "w") as f:
            json.dump(v, f, separators=(",", ":"))
    with open(os.path.join(d, "run.cfg"), "w") as f:
        f.write(cfg)
    cmd = ["java", "-Xss256m", f"-Xmx{heap}", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
           "-XX:TieredStopAtLevel=4", "-cp", JARS, "tlc2.TLC", "-config", "run.cfg", "-workers", str(workers),
           "-metadir", os.path.join(d, "states"), "-noGenerateSpecTE", *extra, module + ".tla"]
    rc, out, err = run(cmd, timeout=timeout, cwd=d)
    out = (out + err).decode("utf-8", "replace")
    shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
    r = TlcResult(rc, out, d)
    if want_ok and rc != 0:
        raise ToolError(f"TLC {module} rc={rc}\n" + out[-6000:])
    return r

def chunks(xs, n):
    xs = list(xs); k = max(1, (len(xs) + n - 1) // n)
    return [xs[i:i + k] for i in range(0, len(xs), k)]

JUDGE_CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Verdict\n"

def judge(c, module, data_chunks, workers=None, timeout=800, heap="3g"):
    """Run the trace specification `module` on each chunk (a dict name->json) and collect
    the rejected steps it wrote to verdict.json.  Returns (rejects, totals)."""
    def one(c):
        r = tlc(module, JUDGE_CFG, c, timeout=timeout, heap=heap)
        v = r.json("verdict.json")
        return v, r.generated, r.distinct
    res = pmap(one, data_chunks, workers or min(NCPU, 8))
    bad, tot = [], {}
    for ci, (v, g, dct) in enumerate(res):
        c.cov["states"] += dct; c.cov["transitions"] += g
        for k, x in v.items():
            if isinstance(x, int) and not isinstance(x, bool): tot[k] = tot.get(k, 0) + x
        for b in v["bad"]:
            b["chunk"] = ci
            bad.append(b)
    return bad, tot

# ---------------------------------------------------------------------------------- verdicts

class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.violations, self.known_hit = [], []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.known = load_known(prop)
    def stage(self, what):
        print(f"[{time.time()-T0:6.1f}s] {what}", flush=True)
    def sample(self, s):
        if len(self.cov["samples"]) < 4:
            t = s if isinstance(s, str) else json.dumps(s)
            self.cov["samples"].append(t[:1500])
    def violation(self, key, what, replay):
        """key: the identity used by the known-findings file; replay: dict written to disk"""
        for k in self.known:
            if k["key"] == key:
                self.known_hit.append((k, what)); return
        self.violations.append((key, what, replay))
    def tlc_design(self, r):
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
    def finish(self):
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions, "wall_s": round(time.time() - T0, 1),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        seen = set()
        for k, what in self.known_hit:
            if k["key"] not in seen:
                seen.add(k["key"])
                print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        rc = 0
        if self.violations:
            rd = os.path.join(BUILD, "replay"); os.makedirs(rd, exist_ok=True)
            for n, (key, what, replay) in enumerate(sorted(self.violations, key=lambda v: [k for k, _, _ in self.violations].count(v[0]))[:10]):
                path = os.path.join(rd, f"{self.prop}-{n}.json")
                with open(path, "w") as f:
                    json.dump({"property": self.prop, "key": key, "what": what, "replay": replay}, f, indent=1, default=str)
                print(f"VIOLATION property={self.prop} replay={path}")
                print("   " + str(what)[:600].replace("\n", " "))
            print(f"{len(self.violations)} violation(s)")
            by = {}
            for key, what, _ in self.violations: by.setdefault(key, [0, what]); by[key][0] += 1
            for key in sorted(by)[:60]: print("  ", by[key][0], "x", key)
            rc = 1
        print(f"{self.prop}: {'VIOLATED' if rc else 'held'} states={self.cov['states']} "
              f"traces={self.cov['traces_validated_against_impl']} wall={time.time()-T0:.1f}s", flush=True)
        return rc

def load_known(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d["property"] == prop and d.get("status") == "known":
                    out.append(d)
    return out

def main(prop, fn, level="model_checking"):
    c = Check(prop, level)
    try:
        fn(c)
        rc = c.finish()
    except ToolError as e:
        print("TOOL ERROR:", e, file=sys.stderr)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
