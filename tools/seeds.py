#!/usr/bin/env python3
"""Writes the planted bugs of tools/seed_defs.py to seeded/<id>/ (patch.diff against /repo's HEAD,
demo.sh, main.rs, meta.json). usage: seeds.py [id ...]"""
import json, os, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from seed_defs import SEEDS
DEMO = r'''#!/bin/bash
# cwd: the repository. Builds main.rs against its crates in a scratch directory and runs it.
# Exit 0: it behaves as it should.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
d=$(mktemp -d) || exit 9
trap 'rm -rf "$d"' EXIT
export HOME=/root PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTC_WRAPPER= CARGO_TARGET_DIR="$d/target"
unset CARGO_BUILD_TARGET
export RUSTFLAGS="-C target-cpu=native"
mkdir -p "$d/ws" "$d/demo/src"
cp /opt/vp/ws/Cargo.toml "$d/ws/"
for c in algebra algebra_derive bool fhe_core lattice; do
  mkdir "$d/ws/$c"; cp "/opt/vp/ws/$c/Cargo.toml" "$d/ws/$c/"
  for e in "$repo/$c"/*; do
    [ "$(basename "$e")" = Cargo.toml ] || ln -s "$e" "$d/ws/$c/"
  done
done
cat >"$d/demo/Cargo.toml" <<E
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[profile.dev]
opt-level = 1
[dependencies]
algebra = { path = "../ws/algebra", default-features = false }
lattice = { path = "../ws/lattice", default-features = false }
fhe_core = { path = "../ws/fhe_core", default-features = false }
zkfhe = { path = "../ws/bool", default-features = false }
rand = "0.8"
rand_distr = "0.4"
num-traits = "0.2"
serde = { version = "1", features = ["derive"] }
once_cell = "1"
bytemuck = "1"
E
cp /opt/vp/ws/Cargo.lock "$d/demo/Cargo.lock"
cp "$here/main.rs" "$d/demo/src/main.rs"
cd "$d/demo" || exit 9
if ! cargo build --offline -q >"$d/log" 2>&1; then tail -30 "$d/log"; exit 8; fi
timeout 200 "$d/target/debug/demo"
'''
def main():
    want = set(sys.argv[1:])
    for s in SEEDS:
        if want and s["id"] not in want: continue
        out = os.path.join(ROOT, "seeded", s["id"])
        with tempfile.TemporaryDirectory() as t:
            subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
            a = os.path.join(t, "r")
            subprocess.check_call(["git", "clone", "-q", "--shared", "/repo", a])
            for e in s["edits"]:
                f, old, new = e[:3]; nth = e[3] if len(e) > 3 else None
                p = os.path.join(a, f); txt = open(p).read()
                n = txt.count(old)
                if nth is None:
                    assert n == 1, (s["id"], f, n)
                    txt = txt.replace(old, new)
                else:
                    assert n > nth, (s["id"], f, n)
                    parts = txt.split(old)
                    txt = old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:])
                open(p, "w").write(txt)
            diff = subprocess.check_output(["git", "-C", a, "diff"], text=True)
            assert diff
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        if "rayon::" in s["main"]: demo = DEMO.replace('once_cell = "1"\n', 'once_cell = "1"\nrayon = "1"\n')
        else: demo = DEMO
        open(os.path.join(out, "demo.sh"), "w").write(demo.replace('algebra", default-features = false }', 'algebra", default-features = false, features = ["count_ntt"] }') if s["property"] == "C36" else demo); os.chmod(os.path.join(out, "demo.sh"), 0o755)
        open(os.path.join(out, "main.rs"), "w").write(s["main"].lstrip("\n"))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        open(os.path.join(out, "meta.json"), "a").write("\n")
main()
