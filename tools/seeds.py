#!/usr/bin/env python3
"""Definitions of the planted bugs; writes /verif/seeded/<id>/{patch.diff,demo.sh,demo.rs,meta.json}.

Usage: seeds.py [ID...]   (works in a scratch copy of /repo's HEAD)
"""
import json, os, pathlib, subprocess, sys, tempfile, shutil

SEEDED = pathlib.Path("/verif/seeded")
SEEDS = {}

DEMO_SH = '''#!/bin/bash
# Runs demo.rs against the crate in the current directory: exit 0 when it behaves.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
soupy = { path = "$repo"@FEATURES@ }
regex = "1"
TOML
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target" RUST_BACKTRACE=0 RUSTC_WRAPPER=
cd "$work" || exit 2
cargo build --offline -q 2>"$work/build.log" || { tail -5 "$work/build.log"; exit 1; }
timeout 60 "$work/target/debug/demo"
'''


def seed(id, prop, needs, breaks, edits, demo, features=""):
    assert id not in SEEDS, id
    SEEDS[id] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, features=features)


NODE, QUERY, PATTERN, FILTER, SOUP = ("src/%s.rs" % n for n in ("node", "query", "pattern", "filter", "soup"))
STRICT, LENIENT, HNODE, ENT, HMOD, XML = (
    "src/parser/html/strict.rs", "src/parser/html/lenient.rs", "src/parser/html/node.rs",
    "src/parser/html/entities.rs", "src/parser/html/mod.rs", "src/parser/xml/mod.rs")

exec((pathlib.Path(__file__).parent / "seeds_list.py").read_text())


def write(id, repo):
    s = SEEDS[id]
    subprocess.run(["git", "-C", repo, "checkout", "-q", "--", "."], check=True)
    for f, old, new in s["edits"]:
        p = pathlib.Path(repo) / f
        t = p.read_text()
        assert t.count(old) == 1, (id, f, t.count(old), old)
        p.write_text(t.replace(old, new))
    d = SEEDED / id
    d.mkdir(parents=True, exist_ok=True)
    (d / "patch.diff").write_text(subprocess.run(["git", "-C", repo, "diff"], check=True, capture_output=True, text=True).stdout)
    (d / "demo.rs").write_text(s["demo"].strip() + "\n")
    (d / "demo.sh").write_text(DEMO_SH.replace("@FEATURES@", s["features"]))
    os.chmod(d / "demo.sh", 0o755)
    (d / "meta.json").write_text(json.dumps({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1) + "\n")


if __name__ == "__main__":
    ids = sys.argv[1:] or list(SEEDS)
    w = tempfile.mkdtemp()
    try:
        subprocess.run(["git", "clone", "-q", "/repo", w + "/r"], check=True)
        for i in ids:
            write(i, w + "/r")
            print("wrote", i)
    finally:
        shutil.rmtree(w)
