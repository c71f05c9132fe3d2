"""Which checks catch which planted bugs: python3 tools/caught.py [id substring ...]"""
import os, shutil, subprocess, sys, json, concurrent.futures as cf, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("SNAPMUT", "/tmp/snapmut")
slots, lk = list(range(8)), threading.Lock()
PROG = open(os.path.join(V, "tools", "mut.py")).read().split("PROG = r'''")[1].split("''' % V")[0] % V


def go(i):
    with lk:
        n = slots.pop()
    try:
        r = "%s/r%d" % (W, n)
        shutil.rmtree(r, ignore_errors=True)
        shutil.copytree("/repo", r, ignore=shutil.ignore_patterns("target", ".git"))
        o = subprocess.run(["patch", "-p1", "-s", "-i", os.path.join(V, "seeded", i, "patch.diff")], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if o.returncode:
            return i, ["PATCH " + o.stdout]
        env = dict(os.environ, PYTHONHASHSEED="0", SNAPVERIF_REPO=r, SNAPVERIF_BUILD="%s/b%d" % (W, n))
        return i, subprocess.run([sys.executable, "-c", PROG], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True).stdout.splitlines()
    finally:
        with lk:
            slots.append(n)


ids = [i for i in sorted(os.listdir(os.path.join(V, "seeded"))) if os.path.isdir(os.path.join(V, "seeded", i)) and (not sys.argv[1:] or any(a in i for a in sys.argv[1:]))]
for n in range(8):
    b = "%s/b%d" % (W, n)
    if not os.path.exists(b):
        shutil.copytree(os.path.join(V, ".build"), b, ignore=shutil.ignore_patterns("facts"))
RP = os.path.join(V, "tools", "caught.json")
res = json.load(open(RP)) if os.path.exists(RP) else {}
with cf.ThreadPoolExecutor(8) as ex:
    for i, ls in ex.map(go, ids):
        p = json.load(open(os.path.join(V, "seeded", i, "meta.json")))["property"]
        got = sorted({l.split()[1] for l in ls if l.startswith("V ")})
        res[i] = got
        print("%-6s %-28s %s caught by %s" % ("caught" if p in got else "MISSED", i, p, ",".join(got)))
        for l in ls:
            if not l.startswith("V ") or p not in got:
                print("       ", l[:300])
json.dump({k: v for k, v in sorted(res.items()) if os.path.isdir(os.path.join(V, "seeded", k))}, open(RP, "w"), indent=0)
