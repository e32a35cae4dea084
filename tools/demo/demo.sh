#!/bin/bash
# runs demo.rs, a test against the code in the current directory, in a scratch copy of it
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'cd /; rm -rf -- "$t"' EXIT
mkdir "$t/r" "$t/r/tests" "$t/work" || exit 99
cp -a Cargo.toml Cargo.lock src sample "$t/r/" || exit 99
cp "$here/demo.rs" "$t/r/tests/demo.rs" && cp "$here/common.rs" "$t/r/tests/common.rs" || exit 99
[ -d target/debug ] && mkdir "$t/r/target" && cp -a target/debug "$t/r/target/debug"
cd "$t/r" || exit 99
export DEMO_TMP="$t/work" HOME="${HOME:-/root}"
timeout 280 cargo test --offline --locked --test demo -- --test-threads 4
