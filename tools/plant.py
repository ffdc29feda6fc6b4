#!/usr/bin/env python3
"""plant.py [ID...]: writes seeded/<id>/ from bugs.py after trying each in a
scratch copy of /repo. Not used by any check."""
import json, os, re, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from bugs import BUGS
seeded = os.path.join(os.path.dirname(here), "seeded")
DEMO = """#!/bin/bash
# Builds demo.rs against the crate in the current directory and runs it.
set -eu
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/demo" "$tmp/demo/src"
cp "$here/demo.rs" "$tmp/demo/src/main.rs"
[ ! -f "$repo/Cargo.lock" ] || cp "$repo/Cargo.lock" "$tmp/demo/"
cat >"$tmp/demo/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
nobject-rs = { path = "$repo" }
[profile.dev]
opt-level = 1
[workspace]
END
mkdir "$tmp/scratch" "$tmp/scratch/src"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$tmp/target RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
(cd "$tmp/demo" && cargo build --offline --quiet)
cd "$tmp/scratch"
RUN
"""
env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, **k)


def main():
    want = sys.argv[1:]
    for id, prop, edits, demo, needs, breaks in BUGS:
        d = os.path.join(seeded, id)
        if want and id not in want or not want and os.path.exists(d):
            continue
        scratch = tempfile.mkdtemp(prefix="plant")
        repo = os.path.join(scratch, "repo")
        try:
            sh(f"cp -a /repo {repo} && git -C {repo} checkout -q -- .", "/")
            for file, old, new, nth in edits:
                p = os.path.join(repo, file)
                s = open(p).read()
                n = s.count(old)
                if nth is None:
                    assert n == 1, (id, file, old, n)
                    nth = 0
                at = -1
                for _ in range(nth + 1):
                    at = s.index(old, at + 1)
                open(p, "w").write(s[:at] + new + s[at + len(old):])
            out = tempfile.mkdtemp(prefix="seed")
            diff = sh("git diff", repo).stdout
            open(f"{out}/patch.diff", "w").write(diff)
            if demo and demo.startswith("#!"):
                open(f"{out}/demo.sh", "w").write(demo)
            elif demo:
                open(f"{out}/demo.rs", "w").write(
                    "#![allow(unused_imports)]\nuse nobject_rs::*;\n\nfn main() {\n    " + demo + "\n}\n")
                open(f"{out}/demo.sh", "w").write(DEMO.replace("RUN", '"$tmp/target/debug/demo"'))
            else:
                rs = os.path.join(here, "demos", id + ".rs")
                shutil.copy(rs, f"{out}/demo.rs")
                run = open(os.path.join(here, "demos", id + ".run")).read().strip()
                open(f"{out}/demo.sh", "w").write(DEMO.replace("RUN", run))
            json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{out}/meta.json", "w"), indent=1)
            sh(f"cargo +nightly fmt -q -- --edition 2021 {out}/demo.rs; rustfmt --edition 2021 {out}/demo.rs", repo)
            t = sh("touch src/*.rs src/*/*.rs; cargo test --offline 2>&1 | grep -E 'FAILED|^error|test result' | head", repo)
            ok = "FAILED" not in t.stdout and "error" not in t.stdout and t.stdout.count("test result: ok") == 2
            bad = sh(f"bash {out}/demo.sh", repo)
            sh("git checkout -q -- . && touch src/*.rs src/*/*.rs", repo)
            good = sh(f"bash {out}/demo.sh", repo)
            verdict = ok and bad.returncode != 0 and "could not compile" not in bad.stderr and good.returncode == 0
            print(id, "OK" if verdict else "BAD", "tests" if ok else "TESTS FAIL", bad.returncode, good.returncode, flush=True)
            if not verdict:
                print(t.stdout[-500:], bad.stderr[-500:], good.stderr[-500:])
                shutil.rmtree(out)
                continue
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(seeded, exist_ok=True)
            shutil.copytree(out, d)
            shutil.rmtree(out)
        finally:
            shutil.rmtree(scratch)


main()
