#!/bin/bash
# Runs the tests of test.rs inside a scratch copy of the crate (appended to a source file as a test module).
set -e
here=$(cd "$(dirname "$0")" && pwd)
. "$here/target.env"   # CRATE, FILE
S=$(mktemp -d); trap 'rm -rf "$S"' EXIT
mkdir "$S/repo"
for n in crates examples data tests fuzz Cargo.toml Cargo.lock; do [ -e "$PWD/$n" ] && cp -a "$PWD/$n" "$S/repo/"; done
cat "$here/test.rs" >> "$S/repo/$FILE"
sed -e "s|^REPO, OUT = .*|REPO, OUT = \"$S/repo\", \"$S/shadow\"|" /opt/vp/shadow.py > "$S/shadow.py"
. /opt/vp/env.sh
python3 "$S/shadow.py"
[ -d /opt/vp/target/nollvm ] && cp -a /opt/vp/target/nollvm "$S/target"
cd "$S/shadow/nollvm"
CARGO_TARGET_DIR="$S/target" timeout 280 cargo test --offline -p "$CRATE" $EXTRA --lib demo_ -- --test-threads 1 > "$S/out" 2>&1 || { tail -40 "$S/out"; exit 1; }
grep -q "test result: ok. [1-9]" "$S/out" || { tail -40 "$S/out"; exit 1; }
