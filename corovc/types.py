"""C14: type-level judgements about the crate, discharged by rustc's own coherence, trait and borrow
checkers on /repo's current sources (the deductive back end is the type checker)."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

from . import props, runner

PRELUDE = """#![allow(unused, dead_code, non_snake_case, non_upper_case_globals, unsafe_op_in_unsafe_fn, unused_unsafe)]
use corosensei::{Coroutine, CoroutineResult, Yielder, on_stack};
use corosensei::trap::CoroutineTrapHandler;
use corosensei::stack::{Stack, StackPointer, DefaultStack};
"""


def sections(path):
    out = []
    for line in open(path):
        m = re.match(r"//# (\S+)(.*)", line)
        if m:
            out.append([m[1], m[2].split(), []])
        elif out:
            out[-1][2].append(line.rstrip("\n"))
    return out


def variants(lines):
    plus = [l for l in lines if not l.rstrip().endswith("//-")]
    minus = [l for l in lines if not l.rstrip().endswith("//+")]
    return plus, (minus if any(l.rstrip().endswith("//-") for l in lines) else None)


def rustc(args, cwd):
    p = subprocess.run(["rustc", "+nightly", "--edition", "2021", "-Awarnings", "--error-format=json"] + args, cwd=cwd,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    errs = []
    for line in p.stderr.splitlines():
        if line.startswith("{"):
            d = json.loads(line)
            if d.get("level", "").startswith("error"):
                errs.append(((d.get("code") or {}).get("code"), d["message"], d["spans"], d.get("rendered") or ""))
    return p.returncode, errs


def crate_args(cfg):
    target, rel, feats = cfg
    sr = os.path.join(runner.BUILD, "sysroot", target)
    ext = json.load(open(os.path.join(sr, "externs.json")))
    a = ["--crate-name", "corosensei", "--crate-type", "lib", "--emit=metadata", "--sysroot", sr, "--target", target,
         "-L", os.path.join(sr, "deps")]
    for n, p in ext.items():
        a += ["--extern", f"{n}={os.path.join(sr, 'deps', os.path.basename(p))}"]
    for f in feats:
        a += ["--cfg", f'feature="{f}"']
    if rel:
        a += ["-Cdebug-assertions=off"]
    return a, sr


def judge(cwd, args):
    """ask the trait solver of the extraction driver (inference variables for all parameters)"""
    env = dict(os.environ, VC_JUDGE="1", VC_CRATE_ROOT="/nonexistent")
    env.pop("VC_ROOTS", None)
    p = subprocess.run([os.path.join(runner.BUILD, "driver"), "--edition", "2021", "-Awarnings", "src/lib.rs", "-o", "j.rmeta"] + args, cwd=cwd, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    out = {m[1]: m[2] for m in re.finditer(r"JUDGE (\w+) (\S+)", p.stdout)}
    out["error"] = p.stderr[-1000:]
    return out


def explained(errs, codes):
    """the rejection is the expected one"""
    for code, msg, _, _ in errs:
        if code in codes:
            return True
        if "lifetime" in codes and re.search(r"lifetime may not live long enough|does not live long enough|borrowed data escapes|mismatched types|lifetime", msg):
            return True
    return False


def check(pid, tier, here, t0):
    cfgs = list(props.ALL[:1]) + [props.NU64D, props.X86D] if tier != "thorough" else list(props.ALL) + list(props.NU)
    work = tempfile.mkdtemp(prefix="corotypes-")
    try:
        return run(pid, tier, here, t0, cfgs, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(pid, tier, here, t0, cfgs, work):
    failures, checked, inconclusive = [], 0, []
    names = set()
    secs = sections(os.path.join(here, "harness", "types_clients.rs"))
    incrate = open(os.path.join(here, "harness", "types_in_crate.rs")).read()
    obl_lines = incrate.splitlines()
    t_solver = 0.0
    jobs = []
    for cfg in cfgs:
        cn = runner.cfgname(cfg)
        d = os.path.join(work, cn)
        os.makedirs(d)
        shutil.copytree(os.path.join(runner.REPO, "src"), os.path.join(d, "src"))
        args, sr = crate_args(cfg)
        rmeta = os.path.join(d, "libcorosensei.rmeta")
        rc, errs = rustc(["src/lib.rs", "-o", rmeta] + args, d)
        if rc != 0:
            print("\n".join(e[3] for e in errs)[:2000])
            print(f"ERROR: the crate does not compile for {cn}")
            return 2
        jobs.append((cfg, cn, d, "in-crate", None, None, args, sr, rmeta))
        for s in secs:
            jobs.append((cfg, cn, d, s[0], s[1], s[2], args, sr, rmeta))

    def go(j):
        cfg, cn, d, name, codes, lines, args, sr, rmeta = j
        res = []
        t = time.time()
        if name == "in-crate":
            dd = os.path.join(d, "in")
            shutil.copytree(os.path.join(d, "src"), os.path.join(dd, "src"))
            p = os.path.join(dd, "src", "lib.rs")
            base = len(open(p).read().splitlines())
            with open(p, "a") as f:
                f.write("\n" + incrate)
            rc, errs = rustc(["src/lib.rs", "-o", os.path.join(dd, "x.rmeta")] + args, dd)
            bad = {}
            for code, msg, spans, text in errs:
                def outer(s):
                    while s.get("expansion"):
                        s = s["expansion"]["span"]
                    return s["line_start"]
                ln = min([outer(s) for s in spans] or [0]) - base - 1
                cur = None
                for i, l in enumerate(obl_lines[:ln]):
                    m = re.match(r"\s*//OBLIGATION (\S+)", l)
                    if m:
                        cur = m[1]
                if "aborting due to" in msg:
                    continue
                bad.setdefault(cur, (code, text))
            for l in obl_lines:
                m = re.match(r"\s*//OBLIGATION (\S+)", l)
                if m and m[1] != "end":
                    b = bad.pop(m[1], None)
                    if b is None:
                        res.append((m[1], "ok", None))
                    elif b[0] == "E0119":
                        res.append((m[1], "fail", "coherence: the impls overlap\n" + b[1]))
                    else:
                        res.append((m[1], "inconclusive", b[1]))
            jr = judge(dd, args)
            for m in re.finditer(r"fn (never_\w+)", incrate):
                v = jr.get(m[1])
                res.append((m[1], "ok" if v == "never" else "fail" if v == "may-hold" else "inconclusive",
                            None if v == "never" else "the trait solver finds an instantiation that may implement the trait: " + m[1] if v else jr.get("error", "")))
            if rc != 0 and bad:
                res.append(("in-crate", "inconclusive", str(bad)[:800]))
        else:
            plus, minus = variants(lines)
            def comp(tag, ls):
                f = os.path.join(d, f"{name}-{tag}.rs")
                open(f, "w").write(PRELUDE + "\n".join(ls) + "\n")
                target = cfg[0]
                return rustc([f, "--crate-type", "lib", "--crate-name", "probe", "--emit=metadata", "-o", f + ".rmeta", "--sysroot", sr, "--target", target,
                              "-L", os.path.join(sr, "deps"), "--extern", f"corosensei={rmeta}"], d)
            rc, errs = comp("accept", plus)
            if rc != 0:
                res.append((name + "/accepted", "fail" if minus is None else "inconclusive", "must be accepted:\n" + "\n".join(plus) + "\n" + "\n".join(e[3] for e in errs)[:1500]))
            else:
                res.append((name + "/accepted", "ok", None))
            if minus is not None:
                rc, errs = comp("reject", minus)
                if rc == 0:
                    res.append((name + "/rejected", "fail", "this safe program must be rejected but compiles:\n" + "\n".join(l for l in minus if l.strip())))
                elif not explained(errs, codes):
                    res.append((name + "/rejected", "inconclusive", "\n".join(e[3] for e in errs)[:1500]))
                else:
                    res.append((name + "/rejected", "ok", None))
        return cn, res, time.time() - t

    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for cn, res, dt in ex.map(go, jobs):
            t_solver += dt
            for n, st, text in res:
                checked += 1
                names.add(n)
                if st == "fail":
                    failures.append({"obligation": n, "config": cn, "program_and_checker_output": text})
                elif st == "inconclusive":
                    inconclusive.append({"obligation": n, "config": cn, "output": text})
    rc = 0
    if failures:
        rd = os.path.join(here, "build", "replays")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, f"{pid}.json")
        json.dump({"property": pid, "failed_obligations": failures[:40]}, open(path, "w"), indent=1)
        for f in failures[:8]:
            print(f"failed obligation: {f['obligation']} [{f['config']}]")
            print("   ", f["program_and_checker_output"][:700].replace("\n", "\n    "))
        # a program that must be rejected and compiles (or the reverse) is itself the failing input
        print(f"VIOLATION property={pid} replay={path}")
        rc = 1
    for i in inconclusive[:5]:
        print(f"not decided: {i['obligation']} [{i['config']}]: {i['output'][:500]}")
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "proof",
          "coverage": {"obligations": checked, "discharged": checked - len(failures) - len(inconclusive),
                       "checker_cmd": f"python3-vt /verif/check.py {pid} {tier}  (rustc nightly: coherence, trait selection, region and borrow checking)",
                       "trusted_base": ["rustc nightly's coherence, trait, variance, region and borrow checkers",
                                        "the reduction of 'all safe client programs' to the listed judgements (DESIGN.md)"],
                       "judgements": sorted(names), "configurations": [runner.cfgname(c) for c in cfgs],
                       "undecided": inconclusive[:10], "checker_seconds": round(t_solver, 1),
                       "back_ends": {"rustc": checked}},
          "assumptions": ["unsafe impls made by client crates (Send for a coroutine, Stack) meet their documented contracts"],
          "wall_s": round(time.time() - t0, 1), "violations": 1 if failures else 0}
    os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(here, "evidence", f"{pid}.json"), "w"), indent=1)
    print(f"{pid} [{tier}]: {checked - len(failures) - len(inconclusive)}/{checked} judgements discharged by rustc in {len(cfgs)} configurations, {time.time() - t0:.0f} s")
    return rc
