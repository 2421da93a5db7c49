#!/usr/bin/env python3
"""Makes one seeded bug from /tmp/w/seeds/<id>.py (variables: prop, needs, breaks,
edits=[(file, old, new)], demo=rust main.rs) and confirms it in a scratch copy of /repo."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/w/seedrepo"
DEMO = '''#!/bin/bash
# Builds main.rs against the tree in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
deser = { path = "$repo/deser" }
deser-json = { path = "$repo/deser-json" %s}
deser-path = { path = "$repo/deser-path" }
deser-debug = { path = "$repo/deser-debug" }
T
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cd "$d" && RUSTFLAGS=-Awarnings CARGO_TARGET_DIR="$d/target" timeout 280 cargo run --offline -q
'''
REFUSED = """cp "$here/refused.rs" "$d/src/main.rs"
# the type in refused.rs must not compile
if RUSTFLAGS=-Awarnings CARGO_TARGET_DIR="$d/target" timeout 200 cargo check --offline -q 2>/dev/null; then echo "refused.rs compiles"; exit 1; fi
exit 0
"""
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, shell=isinstance(cmd, str), **k)
def main(i):
    g = {}
    exec(open("/tmp/w/seeds/%s.py" % i).read(), g)
    head = sh("git rev-parse HEAD", "/repo").stdout.strip()
    if not os.path.exists(S):
        subprocess.run(["cp", "-a", "/repo", S], check=True)
    sh("git fetch -q /repo HEAD && git checkout -q -f %s && git clean -fdq" % head, S)
    for f, a, b in g["edits"]:
        p = os.path.join(S, f)
        t = open(p).read()
        assert t.count(a) >= 1, (f, t.count(a))
        open(p, "w").write(t.replace(a, b, 1))
    diff = sh("git diff", S).stdout
    d = os.path.join(V, "seeded", i)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/main.rs", "w").write(g["demo"])
    open(d + "/demo.sh", "w").write(DEMO % (', features = ["speedups"] ' if g.get("speedups") else ""))
    if "refused" in g:
        open(d + "/refused.rs", "w").write(g["refused"])
        open(d + "/demo.sh", "a").write(" || exit 2\n" + REFUSED)
        t = open(d + "/demo.sh").read().replace("cargo run --offline -q\n || exit 2", "cargo run --offline -q || exit 2")
        open(d + "/demo.sh", "w").write(t)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=g["prop"], needs=g["needs"], what_it_breaks=g["breaks"]), open(d + "/meta.json", "w"), indent=1)
    env = dict(os.environ, RUSTFLAGS="-Awarnings", CARGO_TARGET_DIR="/tmp/w/seedtarget", RUST_BACKTRACE="0")
    t = sh("cargo test --workspace --offline -q 2>&1 | grep -E 'test result|FAILED|error' | sort | uniq -c; cargo test -p deser-json --tests --features speedups --offline -q 2>&1 | grep -E 'FAILED|error'", S, env=env)
    bad = "FAILED" in t.stdout or "error" in t.stdout
    print(i, "tests", "FAIL " + t.stdout if bad else "pass", end=" ")
    w = sh(["bash", d + "/demo.sh"], S)
    sh("git checkout -q -f .", S)
    o = sh(["bash", d + "/demo.sh"], S)
    print("demo with:", w.returncode, "without:", o.returncode)
    if w.returncode == 0 or o.returncode != 0:
        print(w.stderr[-600:], o.stderr[-1500:])
for x in sys.argv[1:]:
    main(x)
