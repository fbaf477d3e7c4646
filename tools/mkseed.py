#!/usr/bin/env python3
"""mkseed.py SPEC.py : SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file,old,new)], DEMO (rust main.rs), optional FEATURES.
Writes /verif/seeded/ID and runs the demo on scratch copies with and without the patch."""
import sys, os, subprocess, json, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(sys.argv[1]))); spec = {}; exec(open(sys.argv[1]).read(), spec)
SC = "/tmp/sc"
D = f"/verif/seeded/{spec['ID']}"
def sh(c, **k): return subprocess.run(c, shell=True, **k)
if not os.path.isdir(SC): sh(f"git clone -q /repo {SC}")
sh(f"cd {SC} && git checkout -q -- . && git clean -qfd && git fetch -q /repo HEAD && git checkout -q FETCH_HEAD")
os.makedirs(D, exist_ok=True)
for f, old, new in spec["EDITS"]:
    p = f"{SC}/{f}"; s = open(p).read()
    if s.count(old) != 1: sys.exit(f"{f}: {s.count(old)} matches for {old!r}")
    open(p, "w").write(s.replace(old, new))
diff = sh(f"cd {SC} && git diff", stdout=subprocess.PIPE).stdout
open(f"{D}/patch.diff", "wb").write(diff)
open(f"{D}/demo.rs", "w").write(spec["DEMO"])
feats = spec.get("FEATURES", ["bincode", "locked_storage"])
open(f"{D}/demo.sh", "w").write(f'''#!/bin/bash
# run in the repository root; builds demo.rs against ./brec and runs it
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
cd "$repo"
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src" "$w/tmp"; export TMPDIR="$w/tmp" CARGO_TARGET_DIR="$w/target" CARGO_NET_OFFLINE=true
cp "$here/demo.rs" "$w/src/main.rs"
echo "fn main() {{}}" > "$w/build.rs"
{spec.get("COPY", "")}
cat > "$w/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
brec = {{ path = "$repo/brec", features = [{", ".join(chr(34)+f+chr(34) for f in feats)}] }}
serde = {{ version = "1.0", features = ["derive"] }}
{spec.get("DEPS", "")}
[profile.dev]
debug = 0
EOF
cd "$w"
cargo build --offline -q 2> build.log || {{ tail -30 build.log; exit 4; }}
timeout 60 "$w/target/debug/demo"
''')
json.dump({"property": spec["PROP"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, open(f"{D}/meta.json", "w"), indent=1)
r1 = sh(f"cd {SC} && bash {D}/demo.sh", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
sh(f"cd {SC} && git checkout -q -- .")
r0 = sh(f"cd {SC} && bash {D}/demo.sh", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
print(spec["ID"], "patched:", r1.returncode, "clean:", r0.returncode)
if r1.returncode in (0, 3, 4) or r0.returncode: print("BAD", r1.stdout[-500:], r0.stdout[-500:])
