"""C01, C03, C27: what main does around a command."""
from ..core import *
from .. import sqluse

TRANS = ("begin_trans", "commit", "rollback")
WRITES = ("raw_put", "raw_put_state", "reflog_push")


def rep_int(v):
    """The set of integers a value can be, or None."""
    if v[0] == "c" and v[1] == "int":
        return {v[2]}
    if v[0] == "or":
        out = set()
        for x in v[1]:
            y = rep_int(x)
            if y is None:
                return None
            out |= y
        return out
    return None


def main_run(an):
    """Follows main through every outcome of every step.  [(property, key, message, where, chain)]"""
    if hasattr(an, "_main_run"):
        return an._main_run
    p = an.p
    bad = []
    stats = Counter()
    trans = {}
    for ty, tag in (("SqliteDS", "ds"), ("SqliteCache", "cache")):
        for m in TRANS:
            trans[an.tm(ty, "Transactional", m).id] = (tag, m)
    dsnew = an.assoc("SqliteDS", "new").id
    cachenew = an.assoc("SqliteCache", "new").id
    hs = {f.id: n for n, f in an.handlers.items()}
    writes = {an.ds(m).id for m in WRITES}
    cg = p.callgraph()
    reach = {f.id: p.reachable([f.id]) for f in an.local_roots()}
    logfns = {f.id for f in an.local_roots() if any(c.name.endswith("config_log") for c, g, s in cg[f.id][0])}
    opens = {f.id for f in an.local_roots() if any(c.name.startswith("rusqlite::Connection::open") for c, g, s in cg[f.id][0])}
    exits = {f.id for f in an.local_roots() if any(c.name in ("std::process::exit", "std::process::abort") for c, g, s in cg[f.id][0])}

    def can_write(fid):
        return bool(reach.get(fid, set()) & writes)

    def cutp(eng, fn):
        if fn.id in hs or fn.id in trans or fn.id in (dsnew, cachenew):
            return True
        r = reach.get(fn.id, set())
        return not (r & (set(hs) | set(trans) | logfns | exits))

    fields = {x[0] for x in an.adts.get("bin::State", {"v": [["", []]]})["v"][0][1]}

    def rewires(fid):
        """Can this command replace parts of main's state (not just use them)?"""
        for y in reach.get(fid, ()):
            f = p.fn(y)
            if not y.startswith("bin::") or f.derived or y == an.main.id:
                continue
            for b, ss, t in f.blocks or ():
                dst = [x[1] for x in ss if x[0] == "="] + ([t[3]] if t[0] == "call" else [])
                for pl in dst:
                    names = [e[2] for e in pl[1] if isinstance(e, list) and e[0] == "f"]
                    if names and names[-1] in fields and "*" in pl[1]:
                        return True
                if t[0] == "call" and t[1][0] == "k" and t[1][1][0] == "fn":
                    n = p.callee(t[1][1][1]).name
                    if n in ("std::option::Option::take", "std::mem::take", "std::mem::replace", "std::mem::swap",
                             "std::option::Option::replace", "std::option::Option::insert"):
                        if any("State" in (a.get("s") or "") for a in t[7]):
                            return True
        return False

    def where(eng, ev):
        return ev.span, eng.chain(ev.ctx)

    def on_call(eng, st, ev):
        n = ev.name
        if n.endswith("config_log"):
            stats["config_log"] += 1
            if has(st, "opened", "any"):
                bad.append(("C27", "config_log after open", "the log callback is installed after a database was opened", *where(eng, ev)))
            if has(st, "log"):
                bad.append(("C27", "config_log twice", "the log callback can be installed twice", *where(eng, ev)))
            cb = ev.args[0]
            cbs = [x for x in eng.origins(cb) if x[0] == "c" and x[1] == "fn"]
            for c in cbs:
                callee = p.callee(eng.fninfo(c))
                g = p.resolve(callee, None)
                if g is not None:
                    stats["callbacks"] += 1
                    for y in p.reachable([g.id]):
                        for c2, g2, sp in cg[y][0]:
                            if c2.name.startswith("rusqlite::") or c2.name.startswith("libsqlite3_sys"):
                                bad.append(("C27", "callback calls %s" % c2.name,
                                            "the log callback %s can call %s" % (g.short, c2.name), sp, [y]))
        if ev.local is None:
            if n in ("std::process::exit", "std::process::abort"):
                code = rep_int(ev.args[0]) if n.endswith("exit") and ev.args else {134}
                stats["exits"] += 1
                final(eng, st, code, "%s(%s)" % (n, eng.show(ev.args[0]) if ev.args else ""), ev.span, eng.chain(ev.ctx))
            return
        fid = ev.local.id
        if fid in (dsnew, cachenew) or (reach.get(fid, set()) & opens and cutp(eng, ev.local) and fid not in hs):
            stats["opens"] += 1
            if not has(st, "log"):
                bad.append(("C27", "open before config_log in %s" % ev.fn.short,
                            "a database can be opened before the log callback is installed", *where(eng, ev)))
            add(st, "opened", "any")
        if fid in hs:
            stats["handler calls"] += 1
            if has(st, "opened", "ds") and can_write(fid):
                if not has(st, "begun", "ds"):
                    bad.append(("C01", "command %s outside the transaction" % hs[fid],
                                "command %s can run before the store transaction has begun" % hs[fid], *where(eng, ev)))
                if has(st, "done", "ds"):
                    bad.append(("C01", "command %s after the commit" % hs[fid],
                                "command %s can run after the store transaction has ended" % hs[fid], *where(eng, ev)))
        elif fid in trans:
            tag, m = trans[fid]
            stats[m] += 1
            if tag == "ds":
                if m == "begin_trans" and has(st, "begun", "ds"):
                    bad.append(("C01", "begin twice", "the store transaction can be begun twice", *where(eng, ev)))
                if m == "commit":
                    if any(t[0] == "res" and t[1] == "err" for t in st.mon):
                        bad.append(("C01", "commit after failure", "the store transaction is committed although the command failed",
                                    *where(eng, ev)))
                    if not any(t[0] == "res" for t in st.mon):
                        bad.append(("C01", "commit before the command", "the store transaction is committed before the command ran",
                                    *where(eng, ev)))
                if m == "rollback" and any(t[0] == "res" and t[1] == "ok" for t in st.mon) and not any(
                        t[0] == "failed" for t in st.mon):
                    bad.append(("C01", "rollback after success", "the store transaction is rolled back although the command succeeded",
                                *where(eng, ev)))
        elif cutp(eng, ev.local) and can_write(fid) and has(st, "opened", "ds") and (
                not has(st, "begun", "ds") or has(st, "done", "ds")):
            bad.append(("C01", "%s outside the transaction" % ev.local.short,
                        "%s, which can write to the store, is called outside the transaction" % ev.local.short, *where(eng, ev)))

    def on_result(eng, st, ev, v):
        if ev.name.endswith("config_log"):
            add(st, "log")
        if not is_result(ev.dty):
            return None
        fid = ev.local.id if ev.local is not None else None
        out = []
        if fid in hs and not rewires(fid):
            for a, old in zip(ev.raw, ev.args):
                while a[0] == "ref" and eng.load_ref(st, a)[0] == "ref":
                    a = eng.load_ref(st, a)
                if a[0] == "ref" and old[0] == "agg":
                    eng.write_loc(st, a, old)
        for s2, x, good in fork(eng, st, v):
            if fid in hs:
                s2.mon = s2.mon | {("res", "ok" if good else "err", fid)}
            elif fid in trans:
                tag, m = trans[fid]
                if good:
                    add(s2, {"begin_trans": "begun", "commit": "done", "rollback": "undone"}[m], tag)
                    if m != "begin_trans" and tag == "ds":
                        add(s2, "done", "ds")
                        add(s2, "how", m)
                else:
                    add(s2, "failed", m, tag)
            elif fid == dsnew and good:
                add(s2, "opened", "ds")
            elif not good:
                add(s2, "failed", ev.name, str(ev.sid))
            out.append((s2, x))
        return out

    def final(eng, st, codes, how, span, chain):
        """The process ends here with one of these statuses (None: unknown)."""
        res = [t for t in st.mon if t[0] == "res"]
        okres = any(t[1] == "ok" for t in res) and not any(t[1] == "err" for t in res)
        failed = [t for t in st.mon if t[0] == "failed"]
        saved = has(st, "how", "commit") or not has(st, "opened", "ds") or not any(can_write(t[2]) for t in res)
        stats["ends"] += 1
        if codes is not None and 0 in codes:
            if not res and not failed:
                bad.append(("C03", "status 0 without a command", "the process can end with status 0 before any command ran (%s)" % how, span, chain))
            if any(t[1] == "err" for t in res):
                bad.append(("C03", "status 0 after a failed command", "the process ends with status 0 although the command failed (%s)" % how, span, chain))
            for t in failed:
                bad.append(("C03", "status 0 after failed %s" % t[1], "the process ends with status 0 although %s%s failed (%s)" % (
                    t[1], " of " + t[2] if t[2] in ("ds", "cache") else "", how), span, chain))
            if okres and not saved:
                bad.append(("C03", "status 0 before saving", "the process ends with status 0 although nothing was committed (%s)" % how, span, chain))
        if okres and not saved and not failed:
            bad.append(("C01", "success without commit", "the process ends after a successful command whose changes were never committed (%s)" % how, span, chain))

    def on_ret(eng, st, fn, ctx, v):
        if eng.ctxs[ctx][0] != 0:
            return
        rty = fn.locals[0][0]["s"]
        codes = {0}
        if v[0] == "agg" and v[1] == RESULT:
            codes = {1} if v[2] == 1 else {0}
            v2 = v[3][0] if v[2] == 0 and v[3] else None
        else:
            v2 = v if "ExitCode" in rty else None
        if v2 is not None and "ExitCode" in rty and codes == {0}:
            r = repr(v2)
            if "FAILURE" in r:
                codes = {1}
            elif "SUCCESS" in r:
                codes = {0}
            elif v2[0] in ("r", "o"):
                codes = None
                cs = set()
                for a in eng.sites[v2[1]].args:
                    if a:
                        cs |= rep_int(a[0]) or {None}
                if None not in cs and cs:
                    codes = cs
            else:
                codes = None
        final(eng, st, codes, "return from main: " + eng.show(v), fn.span, eng.chain(ctx))

    m = Mon(on_call=on_call, on_result=on_result, on_ret=on_ret, cutp=cutp)
    e = an.engine(m, budget=600000)
    outs = e.run(an.main.id)
    # functions not followed from main
    inside = set()
    for h in hs:
        inside |= reach[h]
    an._main_run = (bad, stats, e, outs, inside, reach, trans, hs, logfns, opens, exits, cg)
    return an._main_run


def report(ck, pid, bad):
    for b in bad:
        if b[0] == pid:
            ck.bad(b[1], b[2], b[3], b[4])


def C01(an, ck):
    bad, stats, e, outs, inside, reach, trans, hs, logfns, opens, exits, cg = main_run(an)
    ck.absorb(e, outs)
    report(ck, "C01", bad)
    if not stats["handler calls"]:
        raise CheckError("main calls no command handler")
    ck.good("command call sites in main examined in every state of the transaction", stats["handler calls"])
    ck.good("begin/commit/rollback call events", sum(stats[m] for m in TRANS))
    ck.good("ends of the process", stats["ends"])
    # nothing inside a command touches the transaction or opens the store
    init = an.handlers.get("Init")
    initonly = reach[init.id] if init else set()
    others = set()
    for h in hs:
        if not init or (h != init.id and init.id not in reach[h]):
            others |= reach[h]
    for fid in sorted(inside):
        for c, g, sp in cg.get(fid, ([], ()))[0]:
            ck.good("calls below the commands checked for transaction control")
            if c.tm and c.tm[0] == "Transactional":
                ck.bad("%s in %s" % (c.name, an.p.fn(fid).short),
                       "%s is called inside a command: it ends or restarts the command's transaction part-way" % c.name, sp, [fid])
            if fid in others and c.name.startswith("rusqlite::Connection::open"):
                pf = an.p.fn(fid)
                ck.bad("%s in %s" % (c.name, pf.short),
                       "a command opens another connection to the database: what it writes there bypasses the transaction", sp, [fid])
    # the statements
    uses, op, pr, tr, badsql, engs, n = sqluse.collect(an, ck)
    found = Counter()
    for u in uses:
        for s in u.stmts:
            ck.good("SQL statements classified")
            k = (u.root.id, s["k"], s.get("op"))
            if s["k"] == "trans":
                want = {"BEGIN": "begin_trans", "COMMIT": "commit", "ROLLBACK": "rollback"}.get(s["op"])
                m = trans.get(u.root.id, (None, None))
                if m[1] != want:
                    ck.bad("%s in %s" % (s["op"], u.root.short), "%s executes %r" % (u.root.pretty(), u.text), u.ev.span, u.eng.chain(u.ev.ctx))
                else:
                    found[u.root.id] += 1
            elif s["k"] in ("attach", "detach", "vacuum"):
                ck.bad("%s in %s" % (s["k"], u.root.short), "%s executes %r" % (u.root.pretty(), u.text), u.ev.span)
            elif u.root.id in trans and s["k"] != "pragma":
                ck.bad("%s in %s" % (s["k"], u.root.short), "%s executes %r" % (u.root.pretty(), u.text), u.ev.span)
    for fid, (tag, m) in trans.items():
        if tag == "ds" and not found[fid]:
            ck.bad("%s without statement" % m, "%s of the store does not execute the SQL statement it stands for" % m, an.p.fn(fid).span)
    for u in tr:
        ck.bad("%s in %s" % (u.call, u.fn.short), "%s opens a transaction of its own" % u.fn.pretty(), u.ev.span, u.eng.chain(u.ev.ctx))


def C03(an, ck):
    bad, stats, e, outs, inside, reach, trans, hs, logfns, opens, exits, cg = main_run(an)
    ck.absorb(e, outs)
    report(ck, "C03", bad)
    if not stats["handler calls"] or not stats["ends"]:
        raise CheckError("main calls no command handler")
    ck.good("ends of the process examined in every state", stats["ends"])
    ck.good("command call sites", stats["handler calls"])
    for fid in sorted(set().union(*[reach[h] for h in hs])):
        f = an.p.fn(fid)
        for c, g, sp in cg.get(fid, ([], ()))[0]:
            if c.name in ("std::process::exit",):
                for b, ss, t in f.blocks:
                    if t[0] == "call" and t[6] == sp and t[2] and t[2][0][0] == "k":
                        k = t[2][0][1]
                        if k[0] == "int" and k[1] == 0:
                            ck.bad("exit(0) in %s" % f.short, "%s ends the process with status 0 inside a command, before its changes are saved" % f.pretty(), sp, [fid])
        ck.good("functions below the commands checked for premature exits")


def C27(an, ck):
    bad, stats, e, outs, inside, reach, trans, hs, logfns, opens, exits, cg = main_run(an)
    ck.absorb(e, outs)
    report(ck, "C27", bad)
    if not stats["config_log"]:
        ck.bad("no config_log", "main never installs the log callback", an.main.span)
    if not stats["callbacks"] and stats["config_log"]:
        raise CheckError("the log callback was not found")
    if stats["opens"] < 2:
        raise CheckError("only %d database opens found in main" % stats["opens"])
    ck.good("database opens in main preceded by the installation", stats["opens"])
    ck.good("installations of the log callback", stats["config_log"])
    ck.good("log callbacks examined", stats["callbacks"])
    below = set()
    for h in hs:
        below |= reach[h]
    for f in an.local_roots():
        for c, g, sp in cg[f.id][0]:
            if c.name.endswith("config_log") and (f.id in below or f.id not in reach[an.main.id]):
                ck.bad("config_log in %s" % f.short, "%s installs the log callback again" % f.pretty(), sp)
    # the one unsafe operation
    for f in an.p.fns.values():
        n = f.d.get("unsafe", 0)
        if n and not f.derived:
            ck.good("functions with unsafe blocks")
            calls = [c.name for c, g, s in cg[f.id][0]] if f.id in cg else []
            if f.id not in logfns:
                ck.bad("unsafe in %s" % f.short, "%s contains another unsafe operation" % f.pretty(), f.span)
