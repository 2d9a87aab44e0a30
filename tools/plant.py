#!/usr/bin/env python3
"""tools/plant.py ID PROPERTY FILE.. : makes seeded/ID from the uncommitted change in /tmp/plant (a clone
of /repo).  demo.rs (a #[cfg(test)] module appended to the source file named in its first line
`// into: src/..`) must already be in seeded/ID; meta needs/breaks come from seeded/ID/meta.json."""
import json, os, subprocess, sys
DEMO = r'''#!/bin/bash
# Appends demo.rs (a test module) to a scratch copy of /repo's sources and runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/nargun-demo-XXXXXX)
trap 'rm -rf "$work"' EXIT
export CARGO_HOME=${CARGO_HOME:-/root/.cargo} RUSTUP_HOME=${RUSTUP_HOME:-/root/.rustup}
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$CARGO_HOME/bin
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER=
export CARGO_TARGET_DIR=/repo/target
mkdir -p "$work/crate" "$work/home"
cp -a /repo/Cargo.toml /repo/Cargo.lock /repo/.cargo /repo/src "$work/crate/"
[ -d /repo/resources ] && cp -a /repo/resources "$work/crate/"
cd "$work/crate" || exit 2
into=$(sed -n '1s,^// into: ,,p' "$here/demo.rs")
printf '\n' >> "$into" && cat "$here/demo.rs" >> "$into"
export HOME="$work/home" TMPDIR="$work"
timeout -k 5 280 cargo test --offline zz_demo -- --test-threads 1 > "$work/log" 2>&1
rc=$?
grep -q 'test result: ok\. [1-9][0-9]* passed' "$work/log" || { [ $rc -eq 0 ] && rc=3; }
[ $rc -eq 0 ] || tail -n 40 "$work/log"
exit $rc
'''
pid, prop = sys.argv[1], sys.argv[2]
d = "/verif/seeded/" + pid
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", "/tmp/plant", "diff"], capture_output=True, text=True).stdout
assert diff.strip(), "no change in /tmp/plant"
open(d + "/patch.diff", "w").write(diff)
if not os.path.exists(d + "/demo.sh"):
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
meta = dict(property=prop, needs=sys.argv[3], what_it_breaks=sys.argv[4])
json.dump(meta, open(d + "/meta.json", "w"), indent=1)
subprocess.run(["git", "-C", "/tmp/plant", "checkout", "-q", "--", "."])
