"""python3 -m snapverif.check <property id>"""
import os
import sys
import time
import traceback

from . import core
from .core import An, Ck, CheckError, Budget, HERE, write_evidence
from . import registry


def known_findings():
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property="):
                r = l[len("finding: property="):]
                pid, _, key = r.partition(" ")
                out.setdefault(pid, set()).add(key.strip())
    return out


def run(pid, an, tier, an2=None):
    """One check; an2 is the program compiled with debug assertions and overflow checks."""
    rule = registry.RULES[pid]
    ck = Ck(pid, tier)
    t = time.time()
    try:
        rule.fn(an, ck)
    except (CheckError, Budget) as e:
        if not ck.viol:
            raise
        ck.notes.append("the analysis stopped early: %s" % e)   # what it found before that stands
    if not ck.viol and sum(ck.obl.values()) == 0:
        raise CheckError("no obligations were found: the rule does not match the program any more")
    extra = {"configurations": ["without debug assertions and overflow checks"]}
    if an2 is not None:
        c2 = Ck(pid, tier)
        rule.fn(an2, c2)
        extra["configurations"].append("with debug assertions and overflow checks (%d obligations, %d abstract steps)" % (sum(c2.obl.values()), c2.steps))
        for k, v in c2.viol.items():
            ck.viol.setdefault(k, v)
    write_evidence(ck, time.time() - t, rule.text, rule.assumptions, extra)
    return ck


def main(argv):
    sys.setrecursionlimit(20000)
    ids = argv or sorted(registry.RULES)
    if ids == ["all"]:
        ids = sorted(registry.RULES)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        an = An(fresh=tier == "thorough")
        an2 = An(debug=True, fresh=True) if tier == "thorough" else None
    except CheckError as e:
        print("ERROR: %s" % e)
        return 2
    kf = known_findings()
    rc = 0
    for pid in ids:
        t = time.time()
        try:
            ck = run(pid, an, tier, an2)
        except (CheckError, Budget) as e:
            print("ERROR property=%s: %s" % (pid, e))
            rc = max(rc, 2)
            continue
        except Exception:
            traceback.print_exc()
            print("ERROR property=%s: internal error" % pid)
            rc = max(rc, 2)
            continue
        new = []
        for k, v in ck.viol.items():
            if k in kf.get(pid, ()):
                print("KNOWN-FINDING: property=%s %s" % (pid, k))
            else:
                new.append(v)
        if new:
            d = os.path.join(HERE, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, pid + ".txt")
            with open(path, "w") as fh:
                for v in new:
                    fh.write("property: %s\nrule instance: %s\nwhat: %s\nwhere: %s\n" % (pid, v["key"], v["message"], v["where"]))
                    for c in v["call_chain"]:
                        fh.write("  in %s\n" % c)
                    fh.write("\n")
            for v in new:
                print("%s: %s: %s" % (pid, v["where"], v["message"]))
                for c in v["call_chain"]:
                    print("    in " + c)
            print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(path, HERE)))
            rc = 1 if rc in (0, 1) else rc
        else:
            print("ok property=%s: %d obligations, %d functions, %d call sites, %d abstract steps (%.1f s)" % (
                pid, sum(ck.obl.values()), len(ck.fns), len(ck.sites), ck.steps, time.time() - t))
    return rc


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":
        # the same course on every run
        os.execve(sys.executable, [sys.executable, "-m", "snapverif.check"] + sys.argv[1:], dict(os.environ, PYTHONHASHSEED="0"))
    sys.exit(main(sys.argv[1:]))
