#!/usr/bin/env python3
"""Generates /verif/seeded/<id>/ from seeds_src.py and confirms each in a scratch copy of /repo:
it builds, the stable tests pass, the demonstration succeeds without and fails with the patch.
Usage: mkseed.py [ID ...]   (no check uses this)"""
import json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds_src import SEEDS

OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
DEMO = {
    "release": 'cargo run --offline --quiet --release',
    "debug": 'cargo run --offline --quiet',
    "asan": 'RUSTFLAGS=-Zsanitizer=address cargo +nightly run --offline --quiet --target x86_64-unknown-linux-gnu',
    "tsan": 'RUSTFLAGS=-Zsanitizer=thread cargo +nightly run -Zbuild-std --offline --quiet --target x86_64-unknown-linux-gnu',
    "miri32": 'MIRI_SYSROOT="$d/sysroot" cargo +nightly miri setup --target i686-unknown-linux-gnu >/dev/null 2>&1; MIRI_SYSROOT="$d/sysroot" cargo +nightly miri run --target i686-unknown-linux-gnu --offline --quiet',
    "miribe": 'MIRI_SYSROOT="$d/sysroot" cargo +nightly miri setup --target s390x-unknown-linux-gnu >/dev/null 2>&1; MIRI_SYSROOT="$d/sysroot" cargo +nightly miri run --target s390x-unknown-linux-gnu --offline --quiet',
    "miri": 'MIRI_SYSROOT="$d/sysroot" cargo +nightly miri setup >/dev/null 2>&1; MIRI_SYSROOT="$d/sysroot" cargo +nightly miri run --offline --quiet',
}
HEAD = '''#!/bin/bash
# run with cwd = the repository; exit 0: behaves as the property says
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/"
cat > "$d/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
fxd = { path = "$repo" }
END
export CARGO_TARGET_DIR="$d/target"
cd "$d" || exit 2
'''


def demo_sh(mode):
    if mode == "both":
        return HEAD + '''cargo run --offline --quiet > debug.out 2> debug.err; a=$?
cargo run --offline --quiet --release > release.out 2> release.err; b=$?
echo "debug: exit $a"; cat debug.out debug.err; echo "release: exit $b"; cat release.out release.err
[ $a = $b ] && [ $a = 0 ] && cmp debug.out release.out
'''
    return HEAD + DEMO[mode] + "\n"


def demo_rs(body):
    return '''use fxd::FixedDecimal as D;

#[allow(dead_code)]
fn p(s: &str) -> D {
    s.parse::<D>().unwrap()
}

#[allow(dead_code)]
fn eq(a: String, b: &str) {
    assert!(a == b, "got {}, expected {}", a, b);
}

fn main() {
    %s
}
''' % body.strip().replace("; ", ";\n    ")


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **kw)


def main():
    want = set(sys.argv[1:])
    base = tempfile.mkdtemp(prefix="seed")
    repo = base + "/repo"
    subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
    stable = set()
    bad = []
    try:
        for s in SEEDS:
            if want and s["id"] not in want:
                continue
            sh("git checkout -q -- .", repo)
            msg = None
            for e in s["edits"]:
                f = repo + "/src/" + e[0]
                t = open(f).read()
                if t.count(e[1]) != 1:
                    msg = "edit of %s matches %d times: %s" % (e[0], t.count(e[1]), e[1][:60])
                    break
                open(f, "w").write(t.replace(e[1], e[2]))
            if msg:
                print(s["id"], "BAD", msg); bad.append(s["id"]); continue
            diff = sh("git diff", repo).stdout
            # bugs in lines of our own fixes are kept apart
            d = (OUT + "-extra/" if os.path.isdir(OUT + "-extra/" + s["id"]) else OUT + "/") + s["id"]
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "w").write(diff)
            open(d + "/demo.rs", "w").write(demo_rs(s["demo"]))
            open(d + "/demo.sh", "w").write(demo_sh(s["mode"]))
            os.chmod(d + "/demo.sh", 0o755)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            t = sh("cargo test --offline --lib 2>&1", repo)
            ok = "18 passed; 0 failed" in t.stdout
            w = sh("bash %s/demo.sh" % d, repo)
            sh("git checkout -q -- .", repo)
            c = sh("bash %s/demo.sh" % d, repo)
            good = ok and w.returncode != 0 and c.returncode == 0
            print("%-34s %s tests=%s patched=%d clean=%d" % (s["id"], "ok " if good else "BAD", ok, w.returncode, c.returncode), flush=True)
            if not good:
                bad.append(s["id"])
                print("   tests:", "\n".join(l for l in t.stdout.splitlines() if "FAILED" in l or "error" in l or "panicked" in l)[:600])
                print("   patched:", (w.stdout + w.stderr)[-300:])
                print("   clean:", (c.stdout + c.stderr)[-300:])
    finally:
        shutil.rmtree(base)
    print("bad:", bad)


main()
