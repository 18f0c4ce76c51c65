"""Running the compiler driver and the library entry point on file sets."""
import os, subprocess, json, shutil, itertools, threading
from .common import *
from . import idl

LANGS = ["c", "c-skel", "cpp", "cpp-skel", "rust", "java"]
_n = itertools.count()

def put(files, d=None):
    d = d or scratch(f"src{next(_n)}")
    os.makedirs(d, exist_ok=True)
    for f, t in files.items():
        p = os.path.join(d, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as h:
            h.write(t if isinstance(t, bytes) else t.encode())
    return d

def cmdline(exe, main, who, out, incs=(), extra=()):
    lang, _, sk = who.partition("-")
    c = [exe, main, "-o", out, "--" + lang] + (["--skel"] if sk == "skel" else [])
    for i in incs: c += ["-I", i]
    return c + list(extra)

OK, REJ, BAD = "ok", "rejected", "broken"

def classify(rc):
    if rc == 0: return OK
    if rc == "timeout" or rc < 0: return BAD
    return REJ

def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))

def compile1(exe, d, main, who, incs=(), extra=(), keep=False, timeout=60, outname=None):
    """-> (status, {relative output path: bytes}, stderr)"""
    o = scratch(f"out{next(_n)}")
    lang = who.split("-")[0]
    dst = os.path.join(o, outname or ("out.h" if lang == "c" else "out.hpp")) if lang in ("c", "cpp") else o
    rc, so, se = run(cmdline(exe, os.path.join(d, main), who, dst, incs, extra), timeout=timeout, preexec_fn=limits)
    outs = {}
    for r, _, fs in os.walk(o):
        for f in fs:
            with open(os.path.join(r, f), "rb") as h: outs[os.path.relpath(os.path.join(r, f), o)] = h.read()
    if not keep: shutil.rmtree(o, ignore_errors=True)
    return classify(rc), outs, se.decode("utf-8", "replace")

def build_lib():
    """the library entry point as a program: lib FILE OUTDIR INC..."""
    src = os.path.join(VERIF, "harness", "libgen")
    e = cargo_env(); e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "libgen-" + TARGET)
    w = scratch("libgen")
    shutil.copytree(os.path.join(src, "src"), os.path.join(w, "src"), dirs_exist_ok=True)
    with open(os.path.join(src, "Cargo.toml")) as f: t = f.read().replace("/repo", REPO)
    with open(os.path.join(w, "Cargo.toml"), "w") as f: f.write(t)
    for lk in (os.path.join(REPO, "Cargo.lock"), os.path.join(src, "Cargo.lock")):
        if os.path.exists(lk): shutil.copy(lk, os.path.join(w, "Cargo.lock")); break
    p = subprocess.run(["cargo", "build", "--offline"], cwd=w, env=e, capture_output=True, text=True)
    if p.returncode: raise ToolError("libgen does not build:\n" + p.stderr[-3000:])
    dst = os.path.join(tmpdir(), "libgen-exe")
    shutil.copy2(os.path.join(BUILD, "libgen-" + TARGET, "debug", "libgen"), dst)
    return dst

def lib1(exe, d, main, incs=(), timeout=60):
    o = scratch(f"out{next(_n)}")
    rc, so, se = run([exe, os.path.join(d, main), o] + [str(i) for i in incs], timeout=timeout, preexec_fn=limits)
    outs = {}
    for f in os.listdir(o):
        with open(os.path.join(o, f), "rb") as h: outs[f] = h.read()
    shutil.rmtree(o, ignore_errors=True)
    return classify(rc), outs, se.decode("utf-8", "replace")
