#!/bin/bash
# Builds the MIR extraction driver with the nightly toolchain (rustc-dev).
set -e

OUT=$(realpath -m "${1:?out}")
cd "$(dirname "$0")"
SYS=$(rustc +nightly --print sysroot)
rustc +nightly --edition 2021 -O -o "$OUT" main.rs -C link-arg=-Wl,-rpath,"$SYS/lib"
