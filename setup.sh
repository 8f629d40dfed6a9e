#!/bin/bash
# Builds the machinery from the committed files (offline): the MIR extraction driver, one
# metadata-only sysroot per verified target, and the replay programs' dependencies.
set -e
cd "$(dirname "$0")"
mkdir -p build/sysroot
bash driver/build.sh build/driver
for t in x86_64-unknown-linux-gnu i686-unknown-linux-gnu aarch64-unknown-linux-gnu armv7-unknown-linux-gnueabihf thumbv7neon-unknown-linux-gnueabihf arm-unknown-linux-gnueabi \
         riscv64gc-unknown-linux-gnu riscv32gc-unknown-linux-gnu loongarch64-unknown-linux-gnu \
         x86_64-pc-windows-msvc i686-pc-windows-msvc; do
    python3 sysroot/build.py $t build/sysroot/$t &
    p="$p $!"
done
for x in $p; do wait $x; done
# prebuild the replay programs (only a cache: every check rebuilds what changed)
python3-vt - <<'P' || true
import os, sys
sys.path.insert(0, os.getcwd())
from concurrent.futures import ThreadPoolExecutor
from corovc import props, replay
with ThreadPoolExecutor(4) as ex:
    for c, r in zip(props.ALL + props.NU, ex.map(lambda c: replay.build(c, os.getcwd()), props.ALL + props.NU)):
        print(replay.name(c), "ok" if r[0] else r[1][-500:])
P
python3-vt -c "import z3; print('z3', z3.get_version_string())"
