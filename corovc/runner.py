"""Extraction of the MIR of /repo's working tree, and parallel discharge of the obligations."""
import json
import os
import subprocess
import sys
import tempfile
import time
import traceback
import multiprocessing as mp

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(HERE, "build")
REPO = os.environ.get("VC_REPO", "/repo")


class ExtractError(Exception):
    pass


# what build.rs finds out about the ARM targets
BUILD_RS = {"armv7": ("has_thumb2",), "thumbv7neon": ("is_thumb", "has_thumb2", "fp_is_r7"), "thumbv6": ("is_thumb", "fp_is_r7")}
# Thumb-1 has no target with a standard library; ARMv6 code generated in Thumb mode is the same thing
ALIAS = {"thumbv6-unknown-linux-gnueabi": ("arm-unknown-linux-gnueabi", "-Ctarget-feature=+thumb-mode")}


def cfgname(c):
    t, rel, feats = c
    return f"{t.split('-')[0]}{'-windows' if 'windows' in t else ''}-{'release' if rel else 'debug'}" + ("" if "unwind" in feats else "-nounwind") + ("-asm" if "asm-unwind" in feats else "")


def extract(cfg, outdir):
    """run the MIR extraction driver on /repo's working tree"""
    target, rel, feats = cfg
    arch, (target, *flags) = target.split("-")[0], ALIAS.get(target, (target,))
    sr = os.path.join(BUILD, "sysroot", target)
    drv = os.path.join(BUILD, "driver")
    out = os.path.join(outdir, cfgname(cfg) + ".json")
    env = dict(os.environ, VC_ROOTS=os.path.join(HERE, "harness", "roots.rs"), VC_CRATE_ROOT="src/lib.rs", VC_OUT=out,
               VC_OPAQUE="std::,alloc::,core::fmt,core::panicking")
    ext = json.load(open(os.path.join(sr, "externs.json")))
    cmd = [drv, "--crate-name", "corosensei", "--edition", "2021", "src/lib.rs", "--crate-type", "lib", "--emit=metadata",
           "-o", os.path.join(outdir, cfgname(cfg) + ".rmeta"), "--sysroot", sr, "--target", target]
    for n, p in ext.items():
        cmd += ["--extern", f"{n}={os.path.join(sr, 'deps', os.path.basename(p))}"]
    cmd += ["-L", "dependency=" + os.path.join(sr, "deps"), "-Zmir-opt-level=0", "-Zinline-mir=no", "-Zalways-encode-mir", "-Awarnings"]
    for f in feats:
        cmd += ["--cfg", f'feature="{f}"']
    for c in BUILD_RS.get(arch, ()):
        cmd += ["--cfg", c]
    cmd += flags
    if rel:
        cmd += ["-Cdebug-assertions=off", "-Coverflow-checks=off"]
    p = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    if p.returncode != 0 or not os.path.exists(out):
        raise ExtractError(f"{cfgname(cfg)}: the extraction driver failed:\n{p.stderr[-3000:]}")
    if flags:
        d = json.load(open(out))
        d["target"] = cfg[0]
        json.dump(d, open(out, "w"))
    return out


_D = {}


def _prog(path, root):
    from .mir import load, Prog
    k = (path, root)
    if k not in _D:
        if path not in _D:
            _D[path] = load(path)
        _D[k] = Prog(_D[path], root)
    return _D[k]


def _unit(a):
    path, root, scen, unwind, full, prefix, budget, deadline, others, timeout_ms, shared = a
    from . import core, spec, scenarios
    core.SOLVER_TIMEOUT = timeout_ms
    core.SHARED = shared
    core.CROSS = core.CROSS or full
    rec = core.Recorder()
    rec.others = others
    t = time.time()
    try:
        rest = spec.explore(_prog(path, root), getattr(scenarios, scen), rec, unwind=unwind, deadline=deadline, full=full, prefix=prefix, budget=budget)
    except Exception:
        rec.unsupported.append("internal: " + traceback.format_exc()[-1500:])
        rest = []
    rec.wall = time.time() - t
    return rec, rest


class Result:
    def __init__(self):
        self.obs = {}
        self.failures = []
        self.backend = {}
        self.time = 0.0
        self.cpu = 0.0
        self.queries = 0
        self.covers = {}
        self.fns = set()
        self.asm = set()
        self.unsupported = []
        self.trusted = set()
        self.paths = 0
        self.steps = 0
        self.units = 0

    def add(self, rec, label):
        for k, v in rec.obs.items():
            o = self.obs.setdefault(k, [0, 0, 0])
            for i in range(3):
                o[i] += v[i]
        for f in rec.failures:
            if len(self.failures) < 200:
                self.failures.append(dict(f, scenario=label[1], config=label[0]))
        for k, v in rec.backend.items():
            self.backend[k] = self.backend.get(k, 0) + v
        for k, v in rec.covers.items():
            self.covers[k] = self.covers.get(k, 0) + v
        self.time += rec.time
        self.cpu += rec.wall
        self.queries += rec.queries
        self.fns |= rec.fns
        self.asm |= rec.asm
        self.trusted |= rec.trusted
        for u in rec.unsupported:
            s = f"{label[0]}/{label[1]}: {u}"
            if s not in self.unsupported and len(self.unsupported) < 30:
                self.unsupported.append(s)
        self.paths += rec.paths
        self.steps += rec.steps
        self.units += 1


def run(jobs, others=(), full=False, budget=2.0, seconds=600, timeout_ms=20000, procs=None, stop_on_fail=False):
    """jobs: list of (label, path, root, scenario, unwind).  Returns a Result per label[0]."""
    deadline = time.time() + seconds
    res = {}
    ctx = mp.get_context("fork")
    with tempfile.TemporaryDirectory(prefix="vcq") as shared, ctx.Pool(procs or os.cpu_count()) as pool:
        pending = []
        for label, path, root, scen, unwind in jobs:
            res.setdefault(label[0], Result())
            pending.append((label, (path, root, scen, unwind, full, (), budget, deadline, others, timeout_ms, shared)))
        live = []
        while pending or live:
            while pending:
                label, a = pending.pop()
                live.append((label, a, pool.apply_async(_unit, (a,))))
            nl = []
            for label, a, h in live:
                if h.ready():
                    rec, rest = h.get()
                    res[label[0]].add(rec, label)
                    for p in rest:
                        pending.append((label, a[:5] + (p,) + a[6:]))
                else:
                    nl.append((label, a, h))
            live = nl
            if time.time() > deadline + 60:
                for label, a, h in live:
                    res[label[0]].unsupported.append(f"{label[0]}/{label[1]}: time limit (solver does not return)")
                pool.terminate()
                break
            time.sleep(0.01)
    return res
