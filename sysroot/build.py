#!/usr/bin/env python3
"""Build, for one target, a metadata-only sysroot with the MIR of core/alloc/std,
plus corosensei's non-dev dependencies. Usage: build.py <target> <outdir>"""
import json, os, subprocess, sys, shutil
target, out = sys.argv[1], os.path.abspath(sys.argv[2])
here = os.path.dirname(os.path.abspath(__file__))
work = out + ".cargo"
env = dict(os.environ, RUSTFLAGS="-Zalways-encode-mir")
env.pop("CARGO_TARGET_DIR", None)
src = out + ".src"
shutil.rmtree(src, ignore_errors=True)
os.makedirs(src + "/src")
for f in ("Cargo.toml", "src/lib.rs"):
    shutil.copy(os.path.join(here, f), os.path.join(src, f))
if os.path.exists(os.path.join(here, "Cargo.lock")):
    shutil.copy(os.path.join(here, "Cargo.lock"), src)
p = subprocess.run(["cargo", "+nightly", "check", "--offline", "--message-format=json",
                    "-Zbuild-std=core,alloc,std,panic_unwind", "--target", target,
                    "--target-dir", work], cwd=src, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
if p.returncode != 0:
    sys.stderr.write(p.stderr[-4000:])
    sys.exit(1)
lib = os.path.join(out, "lib", "rustlib", target, "lib")
dep = os.path.join(out, "deps")
shutil.rmtree(out, ignore_errors=True)
os.makedirs(lib); os.makedirs(dep)
externs = {}
for line in p.stdout.splitlines():
    if not line.startswith("{"):
        continue
    m = json.loads(line)
    if m.get("reason") != "compiler-artifact":
        continue
    name = m["target"]["name"].replace("-", "_")
    for f in m["filenames"]:
        if not f.endswith(".rmeta"):
            continue
        man = m["manifest_path"]
        is_std = "/rustlib/src/rust/" in man
        feats = m.get("features", [])
        # std's own copies of libc/cfg-if carry rustc-dep-of-std.
        if is_std or "rustc-dep-of-std" in feats:
            shutil.copy(f, lib)
        elif name != "vcsysroot" and "build-script" not in name:
            d = os.path.join(dep, os.path.basename(f))
            shutil.copy(f, d)
            externs[name] = d
json.dump(externs, open(os.path.join(out, "externs.json"), "w"), indent=1)
shutil.rmtree(work, ignore_errors=True)
shutil.rmtree(src, ignore_errors=True)
