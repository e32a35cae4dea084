#!/bin/bash
# check.sh PROPERTY [quick|thorough] : decide one property of /repo's current source.
# 1. dump the MIR of /repo's crate (lib and bin) with the rustc driver in /verif/driver
# 2. analyse it (analysis/check.py); the analysis runs nothing of /repo
set -u
here=$(cd "$(dirname "$0")" && pwd)
pid=$1
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
repo=${VERIF_REPO:-/repo}
drv=$("$here/setup.sh" print) || { echo "cannot build the MIR driver"; exit 2; }
work=$(mktemp -d /tmp/vcheck-mir.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
if [ -n "${VERIF_DUMP:-}" ]; then
  dump=$VERIF_DUMP
else
  dump=$work/dump
  "$here/dump.sh" "$drv" "$repo" "$dump" "$work" >"$work/log" 2>&1 || { tail -30 "$work/log"; echo "cannot dump the MIR of $repo"; exit 2; }
fi
cd "$here" || exit 2
PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 python3 "$here/analysis/check.py" "$pid" "$dump" "$repo"
