#!/usr/bin/env python3
"""Write the planted bugs described in tools/seeds/*.py to seeded/, and optionally try them.

usage: mkseed.py [--try] [ID ...]

Each description sets ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)], and either
MAIN (a program that exits nonzero when the defect shows) or REJECT (a program that must
not compile, with REJECT_TWIN, which must)."""
import glob
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"

HEAD = r'''#!/bin/bash
# Shows the planted defect on the tree in the current directory.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
. /opt/vp/env.sh
work=$(mktemp -d)
trap 'rm -rf "${work:?}"' EXIT
mkdir "$work/src"
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
osi = { path = "$repo/lib/osi", features = ["std"] }
sys = { path = "$repo/lib/sys" }
tmp = { path = "$repo/lib/tmp" }
[workspace]
TOML
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock" || true
export CARGO_TARGET_DIR="$work/target"
cd "$work"
'''
RUN = HEAD + '''cp "$here/main.rs" src/main.rs
cargo build --offline -q 2> build.log || { cat build.log; exit 3; }
timeout 60 ./target/debug/demo
'''
REJ = HEAD + '''cp "$here/twin.rs" src/main.rs
cargo check --offline -q 2> build.log || { cat build.log; exit 3; }
cp "$here/main.rs" src/main.rs
if cargo check --offline -q 2> build.log; then
    echo "a program that must be rejected was accepted"
    exit 1
fi
'''


def load(path):
    ns = {}
    exec(compile(open(path).read(), path, "exec"), ns)
    return ns


def git(*a):
    return subprocess.run(["git", "-C", R] + list(a), capture_output=True, text=True)


def apply(ns):
    for f, old, new in ns["EDITS"]:
        p = os.path.join(R, f)
        s = open(p).read()
        n = s.count(old)
        if n != 1:
            raise SystemExit("%s: %d matches in %s for %r" % (ns["ID"], n, f, old[:60]))
        open(p, "w").write(s.replace(old, new))


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    trying = "--try" in sys.argv
    assert git("status", "--porcelain", "-uno").stdout == "", "tree not clean"
    for path in sorted(glob.glob(os.path.join(V, "tools/seeds/*.py"))):
        ns = load(path)
        if args and ns["ID"] not in args and ns["PROPERTY"] not in args:
            continue
        d = os.path.join(V, "seeded", ns["ID"])
        os.makedirs(d, exist_ok=True)
        try:
            apply(ns)
            diff = git("diff").stdout
        finally:
            git("checkout", "--", ".")
        open(d + "/patch.diff", "w").write(diff)
        if "MAIN" in ns:
            open(d + "/main.rs", "w").write(ns["MAIN"].lstrip("\n"))
            open(d + "/demo.sh", "w").write(RUN)
        else:
            open(d + "/main.rs", "w").write(ns["REJECT"].lstrip("\n"))
            open(d + "/twin.rs", "w").write(ns["REJECT_TWIN"].lstrip("\n"))
            open(d + "/demo.sh", "w").write(REJ)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
        open(d + "/meta.json", "a").write("\n")
        if trying:
            r0 = subprocess.run(["bash", d + "/demo.sh"], cwd=R, capture_output=True, text=True)
            git("apply", d + "/patch.diff")
            try:
                b = subprocess.run("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seed-tests.json", shell=True, capture_output=True, text=True)
                r1 = subprocess.run(["bash", d + "/demo.sh"], cwd=R, capture_output=True, text=True)
                base = json.load(open("/opt/vp/BASELINE.json"))
                got = json.load(open("/tmp/seed-tests.json")) if os.path.exists("/tmp/seed-tests.json") else {}
                ck = subprocess.run(["python3", "check.py", ns["PROPERTY"]], cwd=V, capture_output=True, text=True)
            finally:
                git("checkout", "--", ".")
            print(ns["ID"], ns["PROPERTY"], "demo clean=%d patched=%d build/test=%d %s check=%d %s" % (
                r0.returncode, r1.returncode, b.returncode, missing(base, got), ck.returncode,
                [l for l in ck.stdout.splitlines() if l.startswith("VIOLATION")][:1]), flush=True)
            if r0.returncode:
                print(r0.stdout[-500:], r0.stderr[-500:])
            if r1.returncode not in (1, 101):
                print(r1.stdout[-800:], r1.stderr[-800:])


def missing(base, got):
    def names(x):
        if isinstance(x, dict):
            for k in ("passed", "tests", "stable", "pass"):
                if k in x:
                    return names(x[k])
            return {k for k, v in x.items() if v in ("pass", "ok", True, "passed")}
        return {t if isinstance(t, str) else t.get("name") for t in x if isinstance(t, str) or t.get("status", "pass") in ("pass", "ok", "passed")}
    m = names(base) - names(got)
    return "all tests pass" if not m else "FAILING %s" % sorted(m)[:4]


main()
