#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from a list of planted bugs, after confirming each in a scratch copy.

    plant.py SPEC.py [ID ...]

SPEC.py defines BUGS, a list of dicts: id, property, edits [(file, old, new)], demo (Rust source),
kind ("debug", "release", "serde", "diesel", "logs"), needs, what_it_breaks. A bug is kept when it applies, the stable tests
pass with it and its demo succeeds without it and fails with it.
"""
import json, os, re, runpy, shutil, subprocess, sys

OUT = "/verif/seeded"
W = "/tmp/plant/repo"

PLAIN = """#!/bin/bash
# Succeeds when the property holds in the working tree of the current directory, fails when it doesn't.
set -e
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
opts="--edition 2021 -A warnings %s"
rustc $opts --crate-type rlib --crate-name arraystring --cfg 'feature="std"' --out-dir "$tmp" src/lib.rs
rustc $opts --extern arraystring="$tmp/libarraystring.rlib" -o "$tmp/demo" "$here/demo.rs"
cd "$tmp"
timeout 120 ./demo
"""
CARGO = """#!/bin/bash
# Succeeds when the property holds in the working tree of the current directory, fails when it doesn't.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs"
cat > "$tmp/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
arraystring = { path = "$repo", features = [%s] }
%s
[profile.dev]
debug = false
END
export CARGO_TARGET_DIR="$tmp/target" CARGO_NET_OFFLINE=true
cd "$tmp"
cargo build -q --offline %s
timeout 120 "$tmp"/target/*/demo
"""
KINDS = {
    "debug": PLAIN % "-C debug-assertions=on",
    "release": PLAIN % "-O",
    "nostd": PLAIN.replace("""--cfg 'feature="std"' """, "") % "-C debug-assertions=on",
    "serde": CARGO % ('"serde-traits"', 'serde = { version = "1", features = ["derive"] }\nserde_json = "1"', ""),
    "diesel": CARGO % ('"diesel-traits"', 'diesel = { version = "2", features = ["sqlite"] }', ""),
    "logs": CARGO % ('"logs"', 'log = "0.4"', ""),
}


def sh(cmd, cwd=W, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def reset():
    sh("git checkout -q -- .")


def tests():
    env = dict(os.environ, CARGO_TARGET_DIR=W + "/target", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
               CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
    for c in ("cargo test --workspace --all-features --no-run --offline", "cargo check --workspace --all-features --benches --offline",
              "cargo check --workspace --lib --offline", "cargo check --workspace --lib --no-default-features --offline"):
        r = sh(c, env=env)
        if r.returncode:
            return "build: " + r.stdout[-2500:]
    r = sh("cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8", env=env)
    open("/tmp/plant/test.log", "w").write(r.stdout)
    sh(["python3", "/opt/vp/results.py", "/tmp/plant/out.json", "cargo:/tmp/plant/test.log"], cwd="/tmp/plant")
    got = set(json.load(open("/tmp/plant/out.json"))["passed"])
    missing = [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in got]
    return "tests: " + ", ".join(missing) if missing else None


def demo(d):
    return sh(["bash", d + "/demo.sh"], timeout=300)


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = sys.argv[2:]
    os.makedirs("/tmp/plant", exist_ok=True)
    if not os.path.exists(W):
        subprocess.check_call(["cp", "-a", "/repo", W])
    sh("git fetch -q /repo HEAD && git checkout -q --detach FETCH_HEAD")
    for b in bugs:
        if only and b["id"] not in only:
            continue
        if not only and os.path.exists(f"{OUT}/{b['id']}/patch.diff"):
            continue
        reset()
        d = "/tmp/plant/" + b["id"]
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/demo.sh", "w").write(KINDS[b.get("kind", "debug")])
        open(d + "/demo.rs", "w").write(b["demo"].lstrip("\n"))
        json.dump({k: b[k] for k in ("property", "needs", "what_it_breaks")}, open(d + "/meta.json", "w"), indent=1)
        why = None
        r = demo(d)
        if r.returncode:
            why = "demo on the unchanged tree: " + r.stdout[-2500:]
        if not why:
            for f, old, new in b["edits"]:
                t = open(f"{W}/{f}").read()
                if t.count(old) != 1:
                    why = f"{f}: {t.count(old)} places match {old[:60]!r}"
                    break
                open(f"{W}/{f}", "w").write(t.replace(old, new))
        if not why:
            diff = sh("git diff").stdout
            open(d + "/patch.diff", "w").write(diff)
            why = tests()
        if not why:
            r = demo(d)
            if r.returncode == 0:
                why = "demo succeeds with the change"
            elif "error: could not compile" in r.stdout or "error[E" in r.stdout:
                why = "demo does not build: " + r.stdout[-1500:]
        reset()
        if why:
            print(b["id"], "REJECTED:", why, flush=True)
            continue
        shutil.rmtree(f"{OUT}/{b['id']}", ignore_errors=True)
        shutil.copytree(d, f"{OUT}/{b['id']}")
        print(b["id"], "kept;", r.stdout.strip().splitlines()[-1:] or r.returncode, flush=True)


main()
