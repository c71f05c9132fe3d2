"""C02: failures of storage, files and encodings are never swallowed."""
from ..core import *

# errors that are not failures of the database, the file system or an encoding
DENY = re.compile(
    r"(^|::)(fmt::Error|Utf8Error|StripPrefixError|TryFromSliceError|ParseIntError|TermLogError|SetLoggerError|"
    r"VarError|KeyishParseError|Infallible|SystemTimeError|TryFromIntError|CharTryFromError|ParseError|clap::Error|"
    r"FromBase32Error|DiffPatchError)$|^\(\)$|^bool$|^str$|^&")
PREDICATES = re.compile(r"^std::path::Path::(exists|is_file|is_dir|is_symlink)$")
KEEP = re.compile(r"::(push|push_back|push_front|insert|extend|send)$")


def fallible(s, fn):
    if not s or not s.startswith("std::result::Result<"):
        return False
    e = err_type(s)
    if e.endswith("FromUtf8Error"):
        return fn.short.startswith("ds::")
    return not DENY.search(e) and not re.fullmatch(r"[A-Z]\w?", e)


def contains_err(v, sid, eng):
    if v[0] == "agg":
        if v[1] == RESULT and v[2] == 1:
            return sid is None or sid in sids(v) or any(
                x[0] in ("r", "o") and x[1] == sid for x in eng.origins(v))
        return any(contains_err(x, sid, eng) for x in v[3])
    return False


def C02(an, ck):
    total = {"calls": 0, "items": 0}
    tolerated = set()
    nf = an.variant("snapcd::ds::GetReflogError", "NotFound")
    norows = next((i for i, v in enumerate(an.adts.get("rusqlite::error::Error", {"v": []})["v"]) if v[0] == "QueryReturnedNoRows"), None)
    intr = None
    ek = an.adts.get("core::io::error::ErrorKind")
    if ek:
        for i, v in enumerate(ek["v"]):
            if v[0] == "Interrupted":
                intr = v[2]
    rootids = [f for f in an.local_roots() if "NullDS" not in f.d.get("self", {}).get("s", "") and f.id != "snapcd::test_ldbg"]
    # debug printing shows what cannot be decoded as raw bytes
    dbg = an.assoc("Object", "debug_pretty_print")
    cg = an.p.callgraph()
    probes = an.p.reachable([dbg.id])
    rest = [x for x in cg if x not in probes]
    while rest:
        x = rest.pop()
        for y in cg[x][1] if x in cg and x != dbg.id else ():
            if y in probes and y != dbg.id:
                probes.discard(y)
                rest.append(y)
    for f in rootids:
        seen_calls = set()

        def fail(st, sid):
            add(st, "fail", sid)

        def on_result(eng, st, ev, v):
            if not ev.dty or not ev.dty["s"].startswith("std::result::Result<"):
                return None
            if not fallible(ev.dty["s"], ev.fn):
                return None
            if ev.local is None:
                # handed on to another function that returns a Result itself
                for t in list(st.mon):
                    if t[0] == "fail" and any(contains_err(a, t[1], eng) for a in ev.args):
                        drop(st, lambda x: x == t)
            if ev.fn.id in probes and ev.name.startswith("serde_cbor::"):
                tolerated.add("%s in %s (shown as raw bytes instead)" % (ev.name, ev.fn.short))
                return None
            if ev.tm == ("Cache", "put"):
                tolerated.add("%s in %s (cache entry not written)" % (ev.name, ev.fn.short))
                return None
            seen_calls.add((ev.fn.id, ev.bb))
            out = []
            for s2, x, good in fork(eng, st, v):
                if not good:
                    fail(s2, ev.sid)
                out.append((s2, x))
            return out

        def on_item(eng, st, ev, it, v):
            e = eng.sites[v[1]]
            ty = e.item
            if not ty or not fallible(ty, ev.fn):
                return None
            seen_calls.add((ev.fn.id, ev.bb, "item"))
            out = []
            for s2, x, good in fork(eng, st, v):
                if not good:
                    fail(s2, v[1])
                out.append((s2, x))
            return out

        def on_fact(eng, st, v, val, eq):
            if v[0] != "discr" or not eq:
                return
            for t in list(st.mon):
                if t[0] != "fail":
                    continue
                s = eng.sites[t[1]]
                e = err_type(s.dty["s"]) if s.dty and is_result(s.dty) else ""
                p = mk("v", mk("r", t[1]), 1, 0)
                o = mk("v", mk("o", t[1]), 1, 0)
                if norows is not None and e.startswith("rusqlite") and e.endswith("::Error") and v[1] in (p, o) and eng.variant_of("rusqlite::error::Error", val) == norows:
                    drop(st, lambda x: x == t)
                    tolerated.add("rusqlite::Error::QueryReturnedNoRows in %s" % s.fn.short)
                if e.endswith("GetReflogError") and v[1] in (p, o) and val == nf:
                    drop(st, lambda x: x == t)
                    tolerated.add("GetReflogError::NotFound in %s" % s.fn.short)
                if intr is not None and val == intr and v[1][0] in ("r", "o"):
                    k = eng.sites[v[1][1]]
                    if k.name.endswith("Error::kind") and any(a and a[0] in (p, o) for a in k.args):
                        drop(st, lambda x: x == t)
                        tolerated.add("ErrorKind::Interrupted in %s" % s.fn.short)

        def on_call(eng, st, ev):
            if PREDICATES.match(ev.name) and not ev.fn.id.startswith("bin::"):
                ck.bad("predicate %s in %s" % (ev.name, ev.fn.short),
                       "%s reports a failed file system call as `false`" % ev.name, ev.span, eng.chain(ev.ctx))
            if KEEP.search(ev.name):
                for t in list(st.mon):
                    if t[0] == "fail" and any(contains_err(a, t[1], eng) for a in ev.args[1:]):
                        drop(st, lambda x: x == t)
            if ev.name in ("std::io::BufWriter::new", "std::io::BufWriter::with_capacity", "std::io::LineWriter::new",
                           "std::io::buffered::bufwriter::BufWriter::new"):
                if not any("std::io::stdout" in eng.origin_calls(a) for a in ev.args):
                    add(st, "buf", ev.sid)
            if ev.tm == ("Write", "flush") or ev.name.endswith("BufWriter::into_inner"):
                for t in list(st.mon):
                    if t[0] == "buf" and ev.args and any(x[0] in ("r", "o") and x[1] == t[1] for x in eng.origins(ev.args[0])):
                        drop(st, lambda x: x == t)

        def kept(eng, st, site, v):
            for t in list(st.mon):
                if t[0] == "fail" and contains_err(v, t[1], eng):
                    drop(st, lambda x: x == t)

        def on_ret(eng, st, fn, ctx, v):
            tag = eng.ctxs[ctx][3]
            root = eng.ctxs[ctx][0] == 0
            if not root:
                # a closure run by an external function hands its error over
                if isinstance(tag, tuple) and len(tag) == 3 and tag[1] == "c":
                    for t in list(st.mon):
                        if t[0] == "fail" and (contains_err(v, None, eng) or any(
                                x[0] in ("r", "o") and x[1] == t[1] for x in eng.origins(v))):
                            drop(st, lambda x: x == t)
                return
            if v[0] == "agg" and v[1] == RESULT and v[2] == 1:
                # an error that callers may take for `no such ref`
                x = v[3][0]
                while x[0] == "conv":
                    x = x[1]
                if x[0] == "agg" and x[1] == "snapcd::ds::GetReflogError" and x[2] == nf:
                    for t in st.mon:
                        if t[0] == "fail":
                            s = eng.sites[t[1]]
                            ck.bad("%s turns failure of %s into NotFound" % (fn.short, s.name),
                                   "%s can report that there is no such ref on a path where %s failed" % (fn.pretty(), s.name), s.span, eng.chain(s.ctx))
                return
            for t in st.mon:
                if t[0] == "buf":
                    s = eng.sites[t[1]]
                    ck.bad("%s: buffered writer not flushed" % fn.short,
                           "%s returns successfully although the buffered writer made here was never flushed: an error "
                           "writing the rest is lost when it is dropped" % fn.pretty(), s.span, eng.chain(s.ctx))
                    continue
                if t[0] != "fail":
                    continue
                rty = fn.locals[0][0]["s"]
                if contains_err(v, t[1], eng):
                    continue
                okv = v[0] == "agg" and v[1] == RESULT and v[2] == 0
                if not okv and any(x[0] in ("r", "o") and x[1] == t[1] for x in eng.origins(v)):
                    continue
                s = eng.sites[t[1]]
                what = s.name if s.name != "next" else "element of the iteration"
                ck.bad("%s swallows failure of %s in %s" % (fn.short, what, s.fn.short),
                       "%s can return normally (value: %s, type %s) on a path where %s failed" % (
                           fn.pretty(), eng.show(v), rty, what), s.span, eng.chain(s.ctx))

        def cutp(eng, fn):
            for i in range(fn.argc):
                ty = fn.locals[i + 1][0]["s"]
                if "Result<" in ty or re.search(r"Error\b", ty):
                    return False
                if ty == "Self" and fn.d.get("intrait", "").endswith(("ToDSErrorResult", "ToDSError")):
                    return False
            return True

        m = Mon(on_call=on_call, on_result=on_result, on_ret=on_ret, on_fact=on_fact, on_item=on_item, cutp=cutp)
        m.kept = kept
        e = an.engine(m, budget=400000)
        try:
            outs = e.run(f.id)
        except Budget:
            ck.notes.append("budget exceeded in %s" % f.short)
            continue
        ck.absorb(e, outs)
        total["calls"] += len(seen_calls)
        ck.good("fallible call or iteration element, every failure path followed to the exit of the function",
                len(seen_calls))
        for c in sorted(seen_calls, key=str)[:1]:
            ck.sample("%s block %d" % (c[0], c[1]))
    if total["calls"] < 90:
        raise CheckError("only %d fallible calls found" % total["calls"])
    for t in sorted(tolerated):
        ck.notes.append("tolerated: " + t)
