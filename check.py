#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough]: decide one property of /repo's working tree."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from corovc import props, runner  # noqa: E402


def known_findings():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    for line in open(p):
        line = line.strip()
        if line.startswith("finding:"):
            out.append(line[len("finding:"):].strip())
    return out


def replay_dir():
    d = os.path.join(HERE, "build", "replays")
    os.makedirs(d, exist_ok=True)
    return d


def trim(x, n):
    s = x if isinstance(x, str) else json.dumps(x, default=str)
    return s if len(s) <= n else s[:n] + "..."


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    if pid == "C14":
        from corovc import types
        return types.check(pid, tier, HERE, t0)
    P = props.PROPS[pid]
    thorough = tier == "thorough"
    work = tempfile.mkdtemp(prefix="corovc-")
    try:
        return decide(pid, P, tier, thorough, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def scope(P, c, thorough):
    """the scenarios run for configuration c, and the covers they must reach"""
    if "unwind" not in c[2]:
        nu = props.PROPS["C15"]
        if P is nu or c not in props.QUICK_NU or thorough:
            return nu["scen"], nu["covers"]
        # P's own scenarios, as far as they make sense without unwinding
        scen = [x for x in ("nu_forced" if x == "forced" else x for x in P["scen"].split()) if x in props.NU_SCEN]
        return " ".join(scen), tuple(x for x in P["covers"] if x in props.NU_COVERS)
    elif c in P.get("some", {}) and not thorough:
        return P["some"][c]
    return P["scen"], P["covers"]


def decide(pid, P, tier, thorough, work, t0):
    cfgs = P.get("configs", props.ALL + props.QUICK_NU)
    if thorough:
        cfgs = cfgs + P.get("thorough_configs", ()) + P.get("thorough_nounwind", ())
    jobs, noext = [], []
    byname = {runner.cfgname(c): c for c in cfgs}
    for c in cfgs:
        try:
            path = runner.extract(c, work)
        except runner.ExtractError as e:
            # outside the verifier's reach (or the crate does not compile at all, which the bounded
            # stand-in notices)
            noext.append(f"{runner.cfgname(c)}: {str(e)[-800:]}")
            continue
        nu = "unwind" not in c[2]
        for s in scope(P, c, thorough)[0].split():
            jobs.append(((runner.cfgname(c), s), path, props.ROOT.get(s, props.MAIN), s, not nu))
    res = runner.run(jobs, props.others(pid), full=thorough, seconds=7200 if thorough else 420,
                     timeout_ms=120000 if thorough else 20000)
    failures, elsewhere, unsupported, missing = [], {}, list(noext), []
    obl = dis = 0
    oth = props.others(pid)
    for cname, r in res.items():
        for n, (ok, bad, unk) in r.obs.items():
            if oth and n.startswith(oth):
                if bad + unk:
                    elsewhere[n] = elsewhere.get(n, 0) + bad + unk
                continue
            obl += ok + bad + unk
            dis += ok
        for f in r.failures:
            if not (oth and f["obligation"].startswith(oth)):
                failures.append(f)
        unsupported += r.unsupported
        for c in scope(P, byname[cname], thorough)[1]:
            if c not in r.covers:
                missing.append((cname, c))
    refuted = [f for f in failures if f["status"] == "fail"]
    undecided = [f for f in failures if f["status"] != "fail"]
    if missing and not refuted and not unsupported and not undecided:
        refuted = [{"obligation": f"vacuity/{c}", "status": "fail", "config": cn, "scenario": P["scen"],
                    "detail": {"detail": f"no execution of the scenarios reaches '{c}'; the contracts would hold vacuously"}} for cn, c in missing]
    rc, bounded, known, nviol = 0, None, [], 0
    if refuted or unsupported or undecided:
        from corovc import replay
        bounded = replay.run(pid, cfgs if P.get("runs", True) else (), HERE, thorough)
        if P.get("runs", True) and not bounded["built"]:
            print("\n".join(bounded["not_built"]))
            print("ERROR: the crate does not build")
            return 2
    kf = known_findings()
    conc = bounded["failures"] if bounded else []
    listed = [c for c in conc if any(f"property={pid}" in k and c["id"] in k for k in kf)]
    conc = [c for c in conc if c not in listed]
    for c in listed:
        print(f"KNOWN-FINDING: property={pid} {c['id']}")
    if refuted or conc:
        path = os.path.join(replay_dir(), f"{pid}.json")
        first = refuted[0] if refuted else None
        json.dump({"property": pid, "failed_obligations": refuted[:20], "undecided": undecided[:5],
                   "failing_inputs": conc[:10], "bounded_suite": {k: v for k, v in (bounded or {}).items() if k != "failures"}},
                  open(path, "w"), indent=1, default=str)
        names = sorted({f"{f['obligation']} [{f['config']}/{f['scenario']}]" for f in refuted})
        for n in names[:12]:
            print("failed obligation:", n)
        if first:
            d = first.get("detail") or {}
            print("  ", trim(d.get("detail", ""), 400))
            print("   at", trim(d.get("where", ""), 600))
            if d.get("model"):
                print("   counterexample:", trim(d["model"], 400))
        for c in conc[:4]:
            print("failing input:", c["id"], "|", trim(c["output"], 400))
        nviol = 1
        rc = 1
        print(f"VIOLATION property={pid} replay={path}" + ("" if conc else " no-failing-input-found"))
    elif unsupported or undecided:
        for u in unsupported[:6]:
            print("not verified:", trim(u, 300))
        for f in undecided[:6]:
            print("undecided:", f["obligation"], trim(f.get("detail"), 300))
        if P.get("runs", True):
            print(f"{pid}: part of the code is out of the verifier's reach; the bounded stand-in "
                  f"({bounded['programs']} programs, {bounded['configs']}) found no failure [bounded, not proved]")
        else:
            print(f"{pid}: part of the code is out of the verifier's reach and cannot run here [not decided]")
    full_proof = not (refuted or unsupported or undecided)
    tot = runner.Result()
    for r in res.values():
        for a in ("fns", "asm", "trusted"):
            getattr(tot, a).update(getattr(r, a))
        tot.paths += r.paths
        tot.time += r.time
        tot.cpu += r.cpu
        tot.queries += r.queries
        tot.steps += r.steps
        for k, v in r.backend.items():
            tot.backend[k] = tot.backend.get(k, 0) + v
    by = {}
    for r in res.values():
        for n, (ok, bad, unk) in r.obs.items():
            if not (oth and n.startswith(oth)):
                b = by.setdefault(n, [0, 0, 0])
                b[0] += ok
                b[1] += bad
                b[2] += unk
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "proof",
        "coverage": {
            "obligations": obl, "discharged": dis,
            "checker_cmd": f"python3-vt /verif/check.py {pid} {tier}  (corovc over the MIR and assembly extracted from /repo by /verif/build/driver; z3 {z3v()})",
            "trusted_base": TRUSTED,
            "all_obligations_discharged": full_proof and obl == dis,
            "configurations": {c: {"paths": r.paths, "obligations": sum(sum(v) for n, v in r.obs.items() if not (oth and n.startswith(oth))),
                                   "z3_queries": r.queries, "z3_seconds": round(r.time, 1), "cpu_seconds": round(r.cpu, 1)} for c, r in res.items()},
            "scenarios": P["scen"].split(),
            "layouts": "all" if thorough else "generic types irrelevant to the scenario in one layout class",
            "back_ends": tot.backend, "solver_seconds": round(tot.time, 1), "paths": tot.paths, "mir_steps": tot.steps,
            "functions_under_contract": sorted(x for x in tot.fns if not x.startswith(("core::", "std::", "alloc::")))[:250],
            "library_functions_executed_from_their_mir": sum(1 for x in tot.fns if x.startswith(("core::", "std::", "alloc::"))),
            "assembly_blocks": sorted(tot.asm)[:60],
            "obligations_by_name": by,
            "reached": sorted({c for r in res.values() for c in r.covers}),
            "not_verified": [trim(u, 1500) for u in unsupported[:10]],
            "bounded_stand_in": {k: v for k, v in bounded.items() if k != "failures"} if bounded else None,
            "failing_obligations_of_other_properties": elsewhere,
        },
        "assumptions": sorted(tot.trusted),
        "wall_s": round(time.time() - t0, 1), "violations": nviol,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{pid}.json"), "w"), indent=1, default=str)
    print(f"{pid} [{tier}]: {dis}/{obl} obligations discharged, {tot.paths} paths, {len(cfgs)} configurations, {tot.queries} z3 queries, {time.time() - t0:.0f} s")
    if elsewhere:
        print("   failing obligations of other properties:", ", ".join(sorted(elsewhere)))
    return rc


def z3v():
    import z3
    return z3.get_version_string()


TRUSTED = [
    "rustc nightly: MIR construction and the layout facts it prints (the driver dumps the MIR of /repo's current sources; nothing is rewritten)",
    "corovc's semantics of MIR, of the instructions and directives that occur in the asm, and of the DWARF CFI and ARM EHABI rules",
    "the compiler honours the operand, clobber and option lists of asm! (its code generation around a block is universally quantified, not checked)",
    "z3",
    "contracts of std/core functions without extracted MIR bodies (panic runtime, Box allocation, io::Error) in corovc/builtins.py",
    "coexisting stacks and objects do not overlap (Stack's unsafe contract)",
]

if __name__ == "__main__":
    sys.exit(main())
