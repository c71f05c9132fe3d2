"""Builds and confirms planted bugs: python3 tools/plant.py [id substring ...]
Definitions live in tools/plants/*.py as B = {id: (property, [(file, old, new)], needs, what_it_breaks, demo body)}.
Works in a scratch copy under /tmp/plant; writes /verif/seeded/<id>/."""
import importlib.util, json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/plant/repo"
BASE = "083a5fa"
PRE = """#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the change
set -u
REPO="$PWD"
BIN="$REPO/target/debug/snapcd"
HERE=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export HOME="$T/home" XDG_CACHE_HOME="$T/cache" TMPDIR="$T"
mkdir -p "$T/home" "$T/cache" "$T/w"
cd "$T/w" || exit 2
s() { "$BIN" "$@" 2>&1; }
fail() { echo "FAIL: $*"; exit 1; }
head_of() { python3 -c "import sqlite3; print(bytes(sqlite3.connect('.snapcd/snapcd.db').execute('SELECT value FROM state').fetchone()[0]).decode())"; }
hash_of() { s insert "$1" | tail -1 | grep -oE 'b[a-z2-7]{52}' | head -1; }
"""
env = dict(os.environ, CARGO_NET_OFFLINE="true")
env.pop("SNAPVERIF_REPO", None)


def sh(cmd, cwd=W, timeout=400):
    return subprocess.run(["bash", "-c", cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, timeout=timeout)


def build():
    return sh("cat /opt/vp/env.sh | sed 's#cd /repo#true#' > /tmp/plant/env.sh; . /tmp/plant/env.sh; cd %s; export CARGO_TARGET_DIR=%s/target; "
              "cargo test --workspace --no-run --locked --offline --lib --bins --tests --benches" % (W, W), timeout=900)


def tests():
    o = sh(". /tmp/plant/env.sh; cd %s; export CARGO_TARGET_DIR=%s/target; cargo test --workspace --no-fail-fast --locked --offline -- --test-threads 8" % (W, W))
    return set(re.findall(r"^test (\S+) \.\.\. ok", o.stdout, re.M)), o


def demo(d):
    o = sh("bash %s/demo.sh" % d, timeout=300)
    return o.returncode, o.stdout


def main():
    B = {}
    d = os.path.join(V, "tools", "plants")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py"):
            sp = importlib.util.spec_from_file_location(f[:-3], os.path.join(d, f))
            m = importlib.util.module_from_spec(sp)
            sp.loader.exec_module(m)
            B.update(m.B)
    sel = sys.argv[1:]
    ids = [i for i in B if not sel or any(s in i for s in sel)]
    if not os.path.exists(W):
        os.makedirs("/tmp/plant", exist_ok=True)
        subprocess.run(["cp", "-a", "/repo", W], check=True)
    sh("git checkout -q -f . && git clean -fdq -e target && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD")
    b = build()
    if b.returncode:
        print(b.stdout[-3000:]); return
    base, _ = tests()
    st = {}
    for i in ids:
        prop, eds, needs, what, body = B[i]
        o = "/tmp/plant/%s" % i
        shutil.rmtree(o, ignore_errors=True)
        os.makedirs(o)
        open(o + "/demo.sh", "w").write(PRE + body.strip() + "\nexit 0\n")
        src = os.path.join(V, "tools", "plants", i)
        if os.path.isdir(src):
            for x in os.listdir(src):
                shutil.copy(os.path.join(src, x), o)
        st[i] = demo(o)
        if st[i][0]:
            print("BAD   %s: demo fails unchanged: %s" % (i, st[i][1][-600:]))
    for i in ids:
        prop, eds, needs, what, body = B[i]
        o = "/tmp/plant/%s" % i
        if st[i][0]:
            continue
        ok = True
        for f, a, n in eds:
            s = open(os.path.join(W, f)).read()
            if a not in s:
                print("BAD   %s: pattern not found in %s" % (i, f)); ok = False; break
            old = subprocess.run(["git", "show", "%s:%s" % (BASE, f)], cwd=W, stdout=subprocess.PIPE, text=True).stdout
            gone = [l for l in a.splitlines() if l.strip() and l not in n.splitlines()]
            if not any(l in old for l in gone) and gone:
                print("WARN  %s: changes no line of the original %s" % (i, f))
            open(os.path.join(W, f), "w").write(s.replace(a, n, 1))
        if not ok:
            sh("git checkout -q -f ."); continue
        diff = subprocess.run(["git", "diff"], cwd=W, stdout=subprocess.PIPE, text=True).stdout
        open(o + "/patch.diff", "w").write(diff)
        b = build()
        if b.returncode:
            print("BAD   %s: build: %s" % (i, b.stdout[-1500:])); sh("git checkout -q -f ."); continue
        t, _ = tests()
        rc, out = demo(o)
        sh("git checkout -q -f .")
        if base - t:
            print("BAD   %s: tests fail: %s" % (i, base - t)); continue
        if rc == 0:
            print("BAD   %s: demo passes with the change: %s" % (i, out[-500:])); continue
        json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(o + "/meta.json", "w"), indent=1)
        dst = os.path.join(V, "seeded", i)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(o, dst)
        print("good  %s (%s): %s" % (i, prop, out.strip().splitlines()[-1:] ))


main()
