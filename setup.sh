#!/bin/bash
# setup.sh : build the MIR driver (only when its source changed); `setup.sh print` also prints its path
set -eu
here=$(cd "$(dirname "$0")" && pwd)
src=$here/driver/driver.rs
h=$(sha256sum "$src" | cut -c1-16)
for d in "$here/.build" "${TMPDIR:-/tmp}/verif-mirdump"; do
  if [ -x "$d/mirdump-$h" ]; then
    [ "${1:-}" = print ] && echo "$d/mirdump-$h"
    exit 0
  fi
done
for d in "$here/.build" "${TMPDIR:-/tmp}/verif-mirdump"; do
  mkdir -p "$d" 2>/dev/null && [ -w "$d" ] && break
done
export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib
t=$(mktemp "$d/tmp.XXXXXX")
rustc +nightly --edition 2021 -O "$src" -o "$t" >&2
mv "$t" "$d/mirdump-$h"
[ "${1:-}" = print ] && echo "$d/mirdump-$h"
exit 0
