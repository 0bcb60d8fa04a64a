#!/usr/bin/env python3
"""mkbug.py SPEC.py: turns a bug description into /verif/seeded/<id>/.

SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...], MAIN (main.rs of the
demonstration) and optionally EXTRA = {file: text}."""
import json, os, subprocess, sys, shutil
DEMO = r'''#!/bin/bash
# Exit 0 when the property holds for the scenario in main.rs, nonzero when it is broken.
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
d=$(mktemp -d) || exit 9
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
tpm2 = { path = "$repo/crates/tpm2" }
tpm2-client = { path = "$repo/crates/tpm2-client" }
tpm2-impl = { path = "$repo/crates/tpm2-impl" }
tpm2-rs-base = { path = "$repo/base" }
tpm2-rs-marshalable = { path = "$repo/marshalable" }
TOML
cd "$d" && CARGO_TARGET_DIR="$d/target" timeout 250 cargo run --offline -q
'''
spec = {}
exec(open(sys.argv[1]).read(), spec)
out = f"/verif/seeded/{spec['ID']}"
wt = "/tmp/bw/mk"
shutil.rmtree(wt, ignore_errors=True)
os.makedirs(wt)
subprocess.check_call("git -C /repo archive HEAD | tar x -C /tmp/bw/mk && git -C /tmp/bw/mk init -q && git -C /tmp/bw/mk add -A && git -C /tmp/bw/mk -c user.name=x -c user.email=x@x commit -qm x", shell=True)
for f, old, new in spec["EDITS"]:
    p = f"{wt}/{f}"
    s = open(p).read()
    assert s.count(old) == 1, (f, old, s.count(old))
    open(p, "w").write(s.replace(old, new))
os.makedirs(out, exist_ok=True)
diff = subprocess.check_output(["git", "-C", wt, "diff"], text=True)
open(f"{out}/patch.diff", "w").write(diff)
open(f"{out}/demo.sh", "w").write(DEMO)
os.chmod(f"{out}/demo.sh", 0o755)
open(f"{out}/main.rs", "w").write(spec["MAIN"])
for n, t in spec.get("EXTRA", {}).items():
    open(f"{out}/{n}", "w").write(t)
json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, open(f"{out}/meta.json", "w"), indent=1)
shutil.rmtree(wt)
