#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seeds/*.py (development aid; no check uses it).
usage: seed.py [id...]      (re)generate; applies to a scratch copy, diffs, writes demo.rs/demo.sh/meta.json"""
import os, sys, json, subprocess, shutil, importlib.util, glob, re

V = "/verif"
DEMO = r'''#!/bin/bash
# run with cwd = flowsdk source tree: builds the library from ./src with demo.rs beside this file, and runs it
set -e
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'case "$T" in /tmp/*) rm -rf "$T";; esac' EXIT
mkdir -p "$T/src"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "flowsdk"
version = "0.5.3"
edition = "2021"
build = false
[lib]
path = "$R/src/lib.rs"
[[bin]]
name = "demo"
path = "$D/demo.rs"
[dependencies]
tokio = { version = "1.0", features = ["sync", "time", "io-util"] }
serde = { version = "1.0.218", features = ["derive"] }
hex = "0.4"
bytes = { version = "1", features = ["serde"] }
serde_json = "1.0"
slab = "0.4.11"
async-trait = "0.1"
thiserror = "1.0"
ctrlc = "3.4"
[features]
default = ["strict-protocol-compliance"]
strict-protocol-compliance = []
protocol-testing = []
tls = []
quic = []
quic-proto = []
rustls-tls = []
async-client = []
grpc = []
arbitrary = []
[workspace]
EOF
cd "$T"
export CARGO_TARGET_DIR="${DEMO_TARGET_DIR:-$T/target}"
cargo build --offline -q --bin demo
"$CARGO_TARGET_DIR/debug/demo"
'''

def load():
    out = {}
    for f in sorted(glob.glob(f"{V}/tools/seeds/*.py")):
        s = importlib.util.spec_from_file_location("s", f); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
        for b in m.BUGS:
            assert b["id"] not in out, b["id"]
            out[b["id"]] = b
    return out

def main():
    bugs = load(); want = sys.argv[1:] or list(bugs)
    for i in want:
        b = bugs[i]; d = f"{V}/seeded/{i}"; os.makedirs(d, exist_ok=True)
        edits = b["edits"]
        patch = ""
        by = {}
        for f, o, n in edits:
            s = by.get(f) or open(f"/repo/{f}").read()
            assert s.count(o) == 1, (i, f, s.count(o), o)
            by[f] = s.replace(o, n)
        for f, s in by.items():
            t = f"/tmp/seed_new"; open(t, "w").write(s)
            r = subprocess.run(["git", "diff", "--no-index", "--no-color", f"/repo/{f}", t], capture_output=True, text=True)
            x = r.stdout.split("\n")
            h = next(k for k, l in enumerate(x) if l.startswith("@@"))
            patch += f"diff --git a/{f} b/{f}\n--- a/{f}\n+++ b/{f}\n" + "\n".join(x[h:])
        open(f"{d}/patch.diff", "w").write(patch)
        open(f"{d}/demo.sh", "w").write(b.get("sh", DEMO)); os.chmod(f"{d}/demo.sh", 0o755)
        open(f"{d}/demo.rs", "w").write(b["demo"].strip() + "\n")
        for k, v in b.get("files", {}).items(): open(f"{d}/{k}", "wb").write(v if isinstance(v, bytes) else v.encode())
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        print("wrote", i)
main()
