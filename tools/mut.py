"""Runs the checks over mutated copies of /repo.
   python3 tools/mut.py [name substring ...]
Copies live under /tmp/snapmut; nothing here is read by a check."""
import concurrent.futures as cf
import importlib.util, os, re, shutil, subprocess, sys, threading

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("SNAPMUT", "/tmp/snapmut")
N = 8
PROG = r'''
import sys; sys.path.insert(0, %r); sys.setrecursionlimit(20000)
from snapverif import core, registry, check, facts
try:
    an = core.An()
except core.CheckError as e:
    print("BUILD", str(e)[:1500]); sys.exit()
import os
only = os.environ.get('SNAPMUT_ONLY', '').split()
for pid in only or sorted(registry.RULES):
    core.write_evidence = check.write_evidence = lambda *a, **k: None
    try:
        ck = check.run(pid, an, "quick")
        for k, v in ck.viol.items(): print("V", pid, v["where"], v["message"])
    except Exception as e:
        print("E", pid, type(e).__name__, e)
''' % V


def muts():
    out = []
    d = os.path.join(V, "tools", "muts")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py"):
            sp = importlib.util.spec_from_file_location(f[:-3], os.path.join(d, f))
            m = importlib.util.module_from_spec(sp)
            sp.loader.exec_module(m)
            out += m.M
    return out


def worker(i, m):
    name, want, eds = m
    r = "%s/r%d" % (W, i)
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "--exclude", ".git", "/repo/", r + "/"], check=True) if shutil.which("rsync") else (
        shutil.rmtree(r, ignore_errors=True), shutil.copytree("/repo", r, ignore=shutil.ignore_patterns("target", ".git")))
    for f, a, b in eds:
        p = os.path.join(r, f)
        s = open(p).read()
        if a == "@end":
            s += b
        else:
            if s.count(a) < 1:
                return name, want, "PATTERN", [f + ": " + a]
            s = s.replace(a, b, 1)
        open(p, "w").write(s)
    env = dict(os.environ, PYTHONHASHSEED="0", SNAPVERIF_REPO=r, SNAPVERIF_BUILD="%s/b%d" % (W, i))
    o = subprocess.run([sys.executable, "-c", PROG], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True).stdout
    return name, want, "OK", o.splitlines()


def main():
    sel = [a for a in sys.argv[1:] if not a.startswith("-")]
    verbose = "-v" in sys.argv
    ms = [m for m in muts() if (not sel or any(s in m[0] for s in sel)) and not ("-q" in sys.argv and m[1])]     # -q: only those that keep the behaviour
    os.makedirs(W, exist_ok=True)
    for i in range(N):
        b = "%s/b%d" % (W, i)
        if not os.path.exists(b):
            shutil.copytree(os.path.join(V, ".build"), b, ignore=shutil.ignore_patterns("facts"))
    slots = list(range(N))
    lk = threading.Lock()

    def go(m):
        with lk:
            i = slots.pop()
        try:
            return worker(i, m)
        finally:
            with lk:
                slots.append(i)
    bad = 0
    with cf.ThreadPoolExecutor(N) as ex:
        for name, want, st, lines in ex.map(go, ms):
            got = sorted({l.split()[1] for l in lines if l.startswith("V ")})
            errs = [l for l in lines if l.startswith(("E ", "BUILD", "Traceback"))]
            w = set(want.split())
            good = st == "OK" and not errs and (bool(set(got) & w) if w else not got)
            full = good and w <= set(got)
            tag = "ok  " if full else ("part" if good else "FAIL")
            bad += not good
            print("%s %-42s want=%s got=%s" % (tag, name, ",".join(sorted(w)), ",".join(got)))
            if errs or st != "OK" or verbose or (not w and got) or (not good):
                for l in (lines if not errs else errs)[:25]:
                    print("        " + l[:300])
    print("%d mutations, %d not as expected" % (len(ms), bad))


if __name__ == "__main__":
    main()
