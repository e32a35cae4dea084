#!/bin/bash
# dump.sh DRIVER REPO OUTDIR WORKDIR : MIR of REPO's crate and of the library models, as JSON in OUTDIR
set -eu
drv=$1 repo=$2 out=$3 work=$4
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$out" "$work/target" "$work/m"
export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib
export MIRDUMP_OUT=$out
( cd "$repo" && CARGO_TARGET_DIR="$work/target" RUSTC_WORKSPACE_WRAPPER="$drv" cargo +nightly check --offline --locked --lib --bins )
"$drv" rustc --edition 2021 --crate-name models --crate-type lib --emit=metadata -o "$work/m/models.rmeta" "$here/models/models.rs"
test -s "$out/midi2spc.lib.json" && test -s "$out/midi2spc.bin.json" && test -s "$out/models.lib.json"
