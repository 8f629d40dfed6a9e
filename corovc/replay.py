"""Concrete programs run against the real crate: the replay of a failed obligation, and the
labelled bounded stand-in where the code is outside the verifier's reach."""
import concurrent.futures as cf
import glob
import hashlib
import os
import re
import subprocess

TIMEOUT = 150


def name(c):
    t, rel, feats = c
    return f"{t.split('-')[0]}-{'release' if rel else 'debug'}-{'asm-unwind' if 'asm-unwind' in feats else 'unwind' if 'unwind' in feats else 'nounwind'}"


def srchash():
    """of everything in /repo that the crate is built from"""
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk("/repo")):
        ds[:] = sorted(x for x in ds if x not in (".git", "target"))
        for f in sorted(fs):
            if f.endswith((".rs", ".toml", ".lock")):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()


def fresh(tdir):
    """cargo goes by file times: make it rebuild the crate whenever its sources differ from those last built"""
    mark = os.path.join(tdir, ".sources")
    now = srchash()
    old = open(mark).read() if os.path.exists(mark) else ""
    if old != now:
        for f in glob.glob(os.path.join(tdir, "*", "*", ".fingerprint", "corosensei-*")) + glob.glob(os.path.join(tdir, "*", ".fingerprint", "corosensei-*")):
            for g in os.listdir(f):
                os.utime(os.path.join(f, g), (1, 1))
        os.makedirs(tdir, exist_ok=True)
        open(mark, "w").write(now)


def build(c, here):
    """builds the replay crate with path dependency on /repo; returns (binary, output)"""
    t, rel, feats = c
    crate = os.path.join(here, "replay")
    tdir = os.path.join(here, "build", "rt", name(c))
    env = dict(os.environ, RUSTFLAGS="-Cforce-frame-pointers=yes -Awarnings", RUST_BACKTRACE="0")
    env.pop("CARGO_TARGET_DIR", None)
    fresh(tdir)
    cmd = ["cargo", "+1.99.1", "build", "--offline", "--target", t, "--target-dir", tdir]
    if "asm-unwind" in feats:
        cmd += ["--features", "asm-unwind"]
        env["RUSTC_BOOTSTRAP"] = "1"
    elif "unwind" in feats:
        cmd += ["--features", "unwind"]
    if rel:
        cmd.append("--release")
    p = subprocess.run(cmd, cwd=crate, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    b = os.path.join(tdir, t, "release" if rel else "debug", "vreplay")
    if p.returncode != 0:
        return None, p.stdout[-3000:]
    return b, ""


def one(b, test):
    env = dict(os.environ, RUST_BACKTRACE="0")
    try:
        p = subprocess.run([b, "run", test], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=TIMEOUT,
                           stdin=subprocess.DEVNULL, cwd="/")
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode("utf-8", "replace")


def valgrind(b):
    """run the stack program under valgrind; compare valgrind's log with the life of the mappings"""
    env = dict(os.environ, RUST_BACKTRACE="0")
    try:
        p = subprocess.run(["valgrind", "--tool=none", "-d", "-d", "-v", b, "run", "valgrind"], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=TIMEOUT, stdin=subprocess.DEVNULL, cwd="/")
    except subprocess.TimeoutExpired:
        return "timeout", ""
    except FileNotFoundError:
        return None, "no valgrind"
    log = p.stdout.decode("utf-8", "replace")
    if "VCEV" not in log:
        return None, "valgrind does not run this program: " + log[-500:]
    regs, maps = {}, {}
    for line in log.splitlines():
        m = re.search(r"stacks\s+register \[start-end\] \[0x([0-9A-Fa-f]+)-0x([0-9A-Fa-f]+)\] as stack (\d+)", line)
        if m:
            if int(m[3]) != 0:
                regs[int(m[3])] = [int(m[1], 16), int(m[2], 16), True]
            continue
        m = re.search(r"stacks\s+deregister stack (\d+)", line)
        if m:
            r = regs.get(int(m[1]))
            if r is None or not r[2]:
                return 1, f"stack {m[1]} is deregistered but not registered"
            r[2] = False
            continue
        m = re.match(r"VCEV (\w+) ([0-9a-f]+) ([0-9a-f]+)", line)
        if not m:
            continue
        ev, lo, hi = m[1], int(m[2], 16), int(m[3], 16)
        live = [r for r in regs.values() if r[2]]
        if ev == "live":
            n = sum(1 for r in live if r[0] == lo and r[1] == hi)
            if n != 1:
                return 1, f"stack {lo:x}-{hi:x} is live with {n} registrations; registered: {[(hex(r[0]), hex(r[1])) for r in live]}"
        elif ev == "unmap":
            if any(r[0] < hi and r[1] > lo for r in live):
                return 1, f"{lo:x}-{hi:x} is unmapped while still registered"
        elif ev == "end" and live:
            return 1, f"registrations left over: {[(hex(r[0]), hex(r[1])) for r in live]}"
    if p.returncode != 0 or "VCEV end" not in log:
        return p.returncode or 1, log[-1500:]
    return 0, ""


def run(pid, cfgs, here, thorough):
    seen, want = set(), []
    for c in cfgs:
        if name(c) not in seen:
            seen.add(name(c))
            want.append(c)
    out = {"failures": [], "programs": 0, "configs": [name(c) for c in want], "built": [], "not_built": [],
           "bound": "the listed programs of /verif/replay, each run once per configuration"}
    with cf.ThreadPoolExecutor(4) as ex:
        built = list(ex.map(lambda c: build(c, here), want))
    jobs = []
    for c, (b, msg) in zip(want, built):
        if b is None and "asm-unwind" in c[2]:
            # a nightly-only feature
            out.setdefault("not_run", []).append(f"{name(c)}: {msg[-600:]}")
            continue
        if b is None:
            out["not_built"].append(f"{name(c)}: {msg[-600:]}")
            continue
        out["built"].append(name(c))
        for t in subprocess.run([b, "list", pid], stdout=subprocess.PIPE, text=True).stdout.split():
            jobs.append((c, b, t))
        if pid in ("C16",):
            jobs.append((c, b, "valgrind"))
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        def go(j):
            c, b, t = j
            return j, (valgrind(b) if t == "valgrind" else one(b, t))
        for (c, b, t), (rc, text) in ex.map(go, jobs):
            if rc is None:
                out.setdefault("not_run", []).append(f"{name(c)}/{t}: {text[:200]}")
                continue
            out["programs"] += 1
            if rc != 0:
                keep = [x for x in text.splitlines() if x.strip() and not x.startswith("note:") and not x.startswith("--")]
                rel = "--release " if c[1] else ""
                feat = "--features asm-unwind " if "asm-unwind" in c[2] else "--features unwind " if "unwind" in c[2] else ""
                how = "valgrind --tool=none -d -d -v vreplay run valgrind" if t == "valgrind" else f"run {t}"
                out["failures"].append({"id": f"{t}@{name(c)}", "exit": rc, "output": "\n".join(keep[-12:])[-1500:],
                                        "reproduce": f"cd /verif/replay && {'RUSTC_BOOTSTRAP=1 ' if 'asm-unwind' in c[2] else ''}RUSTFLAGS=-Cforce-frame-pointers=yes cargo +1.99.1 run --offline {rel}{feat}--target {c[0]} --target-dir /tmp/rt -- {how}"})
    out["failures"].sort(key=lambda f: f["id"])
    return out
