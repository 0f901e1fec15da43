"""mkseed.py ID PROPERTY DEMO.rs NEEDS WHAT : turn /repo's uncommitted change into seeded/ID and undo it."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i, prop, demo, needs, what = sys.argv[1:6]
d = f"{V}/seeded/{i}"
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", "/repo", "diff"], stdout=subprocess.PIPE, text=True).stdout
assert diff.strip()
open(d + "/patch.diff", "w").write(diff)
subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
src = open(demo).read()
open(d + "/main.rs", "w").write(src)
deps = [c for c in ("parsa", "parsa_python", "parsa_python_cst", "utils", "vfs", "licensing", "logging_config", "test_utils")
        if c + "::" in src]
extra = [l[len("//dep "):].strip() for l in src.splitlines() if l.startswith("//dep ")]
sh = """#!/bin/bash
# Builds main.rs against the crates of the current directory's repository and runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d /tmp/seeddemo.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
""" + "".join(f'{c} = {{ path = "$repo/crates/{c}" }}\n' for c in deps) + "".join(e + "\n" for e in extra) + """TOML
cd "$tmp"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$tmp/target"
mkdir scratch && export DEMO_SCRATCH="$tmp/scratch" DEMO_REPO="$repo"
cargo build --offline --quiet 2>build.log || { tail -20 build.log; exit 2; }
timeout 120 ./target/debug/demo
"""
open(d + "/demo.sh", "w").write(sh)
json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
print("made", d)
