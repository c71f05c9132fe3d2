"""C04, C13, C16, C18, C26: rules over the SQL the program executes."""
from ..core import *
from .. import sqluse, sql

READS = ("select", "pragma", "trans", "explain", "analyze", "")


def label(s):
    return s["k"] if s["k"] != "?" else s["verb"].lower()


def whereis(u):
    return u.ev.span, u.eng.chain(u.ev.ctx)


def is_dbkey(eng, v):
    """The key whose database form this value is, or None."""
    for x in strip(eng, v):
        if x[0] in ("r", "o") and eng.sites[x[1]].name.endswith("Key::as_db_key"):
            out = set()
            for a in eng.sites[x[1]].args:
                out |= strip(eng, a[0])
            return out
    return None


def roles(an):
    """{method id: {(table, column): what must be bound}}; what = (kind, terms)."""
    if hasattr(an, "_roles"):
        return an._roles
    R = {}

    def P(f, i, *path):
        return ("copy", param(f, i, *path))
    g = an.ds
    kv = lambda f, t: {(t, "key"): P(f, 1), (t, "value"): P(f, 2)}
    R[g("raw_get").id] = kv(g("raw_get"), "data")
    R[g("raw_put").id] = kv(g("raw_put"), "data")
    R[g("raw_exists").id] = kv(g("raw_exists"), "data")
    R[g("raw_get_state").id] = kv(g("raw_get_state"), "state")
    R[g("raw_put_state").id] = kv(g("raw_put_state"), "state")
    for m in ("reflog_get", "reflog_walk"):
        f = g(m)
        R[f.id] = {("reflog", "refname"): P(f, 1), ("reflog", "remote"): P(f, 2)}
    f = g("reflog_push")
    R[f.id] = {("reflog", "refname"): P(f, 1, "refname"), ("reflog", "remote"): P(f, 1, "remote"),
               ("reflog", "key"): ("dbkey", param(f, 1, "key"))}
    f = g("raw_between")
    R[f.id] = {("data", "key", ">="): P(f, 1), ("data", "key", "<"): P(f, 2)}
    for m in ("raw_get", "raw_put"):
        f = an.tm("SqliteCache", "Cache", m)
        R[f.id] = kv(f, "cache")
    an._roles = R
    return R


def fits(eng, v, want):
    """Is a bound value the one that belongs there?"""
    kind, t = want
    if kind == "dbkey":
        k = is_dbkey(eng, v)
        return k is not None and k <= {t, mk("f", t, "inner")}
    some_ = mk("v", t, 1, 0)
    got = strip(eng, v)
    return bool(got) and got <= {t, some_, NONE} and got != {NONE}


def columns(u, s, sch):
    """[(column, operator, value expression)] of the values an SQL statement uses; bad conditions."""
    out, bad = [], []
    if s["k"] == "insert":
        cs = sqluse.insert_cols(s, sch)
        if cs is None:
            bad.append("its values cannot be matched with columns")
        else:
            out = [(c, "=", e) for c, e in cs]
        for c, e in s.get("set", ()):
            out.append((c, "=", e))
    elif s["k"] == "select":
        for e in sql.conj(s["where"]):
            cp = sql.colparam(e)
            if cp and cp[0] in ("=", "is", ">=", ">", "<", "<="):
                out.append((cp[1], cp[0], ("param", cp[2])))
            elif "'param'" in repr(e):
                bad.append("a bound value is not compared literally with a column (%s)" % showexpr(e))
    return out, bad


def showexpr(e):
    if e[0] in ("=", "<", ">", "<=", ">=", "!=", "is", "isnot", "like", "and", "or"):
        return "%s %s %s" % (showexpr(e[1]), e[0].upper(), showexpr(e[2]))
    if e[0] == "col":
        return e[1]
    if e[0] == "param":
        return "?"
    if e[0] == "fn":
        return "%s(%s)" % (e[1], ", ".join(showexpr(x) for x in e[2]))
    if e[0] == "collate":
        return showexpr(e[1]) + " COLLATE " + e[2]
    return e[0]


# rusqlite functions that take texts which are not SQL
OTHER = re.compile(
    r"^rusqlite::(Connection::open\w*|Row::get\w*|Rows::\w+|Statement::(column\w*|query\w*|execute\w*|insert|exists|raw_\w+|"
    r"bind\w*|parameter\w*|clear\w*)|Connection::(execute|query_row|prepare|execute_batch|last_insert_rowid|changes|"
    r"busy_timeout|pragma_\w+|is_autocommit|close|path|db_name)\w*|pragma::\w+|cache::\w+|types::\w+|trace::\w+|Error::\w+|"
    r"row::\w+|statement::\w+)$")


def C26(an, ck):
    uses, opens, pragmas, trans, bad, engs, n = sqluse.collect(an, ck)
    sch = sqluse.schema(uses)
    for f, ev, v, e in bad:
        ck.bad("%s in %s: text not constant" % (ev.name, ev.fn.short),
               "the SQL text given to %s is not a fixed text: %s" % (ev.name, e.show(v)), ev.span, e.chain(ev.ctx))
    for u in pragmas:
        ck.good("pragmas with fixed name and value")
        if u.name is None or (sqluse.text(u.value) is None and u.value[0] != "c"):
            ck.bad("pragma in %s" % u.fn.short, "the name or value of a pragma is not fixed: %s" % u.eng.show(u.value), *whereis(u))
    R = roles(an)
    for u in uses:
        ck.good("SQL executions with a fixed text")
        want = R.get(u.root.id, {})
        np = sum(s["params"] for s in u.stmts)
        if np and u.params is None:
            # a list of parameters that is not written out at the call
            ck.notes.append("the parameters of %r in %s are not a literal list" % (u.text, u.fn.short))
            continue
        named = u.params and any(x[0] == "agg" and x[1] == "tuple" and len(x[3]) == 2 for x in u.params)
        if np != len(u.params or ()) and not named:
            ck.bad("parameter count in %s: %s" % (u.root.short, u.text), "%d values are bound to the %d parameters of %r" % (
                len(u.params or ()), np, u.text), *whereis(u))
        for s in u.stmts:
            cols, wrong = columns(u, s, sch)
            for w in wrong:
                ck.bad("%s in %s: %s" % (label(s), u.root.short, w), "in %r %s" % (u.text, w), *whereis(u))
            tab = s.get("table") or s.get("from")
            defs = sch.get(tab, ({"defs": {}}, None))[0].get("defs", {})
            for c, op, e in cols:
                ck.good("bound values matched with their columns")
                if "COLLATE" in defs.get(c, ()) and "BINARY" not in defs.get(c, ()):
                    ck.bad("collation of %s.%s" % (tab, c), "the column %s.%s is not compared literally (COLLATE)" % (tab, c), *whereis(sch[tab][1]))
                if e[0] != "param":
                    if e[0] not in ("null", "num", "str"):
                        ck.bad("%s.%s in %s" % (tab, c, u.root.short), "the value of %s.%s in %r is computed by SQL, not the bound value itself" % (tab, c, u.text), *whereis(u))
                    continue
                v = sqluse.bound(u, s, e)
                w = want.get((tab, c, op)) or want.get((tab, c))
                if v is None or w is None:
                    continue
                if not fits(u.eng, v, w):
                    ck.bad("%s.%s bound in %s" % (tab, c, u.root.short),
                           "in %r the parameter for %s.%s is %s, not %s" % (u.text, tab, c, u.eng.show(v), u.eng.show(w[1])), *whereis(u))
    # no other way in
    for f in an.local_roots():
        for c, g, sp in an.p.callgraph()[f.id][0]:
            if c.name.startswith("libsqlite3_sys") or "ffi::sqlite3" in c.name:
                ck.bad("%s in %s" % (c.name, f.short), "%s is called directly" % c.name, sp, [f.id])
            if c.name.startswith("rusqlite::"):
                ck.good("calls into the database library")
    if not uses:
        raise CheckError("no SQL found")


def C04(an, ck):
    uses, opens, pragmas, trans, bad, engs, n = sqluse.collect(an, ck)
    sch = sqluse.schema(uses)
    if "data" not in sch:
        raise CheckError("the table of objects (data) is not created anywhere")
    t, tu = sch["data"]
    if ("key",) not in t["pk"] and ("key",) not in t["unique"]:
        ck.bad("data.key not unique", "the table of objects allows a key to be stored twice with different bytes", *whereis(tu))
    if "CONFLICT" in " ".join(" ".join(x) for x in t.get("defs", {}).values()):
        ck.bad("data conflict clause", "the table of objects has its own conflict rule", *whereis(tu))
    ck.good("uniqueness of the object key")
    ins = 0
    for u in uses:
        for s in u.stmts:
            ck.good("statements classified")
            k = s["k"]
            if k == "?" and "data" in s["words"]:
                v = s["verb"].upper()
                if v not in ("SELECT", "WITH", "EXPLAIN"):
                    ck.bad("%s data in %s" % (v, u.root.short), "%r may change stored objects" % u.text, *whereis(u))
                continue
            if k in ("update", "delete", "drop", "alter") and s.get("table") == "data":
                ck.bad("%s data in %s" % (k, u.root.short), "%r alters or removes stored objects" % u.text, *whereis(u))
            if k == "create" and s["obj"] == "TRIGGER":
                ck.bad("trigger in %s" % u.root.short, "%r may change stored objects" % u.text, *whereis(u))
            if k == "insert" and s["table"] == "data":
                ins += 1
                ck.sample(u.text.strip())
                if s["conflict"] == "REPLACE":
                    ck.bad("replace data in %s" % u.root.short, "%r replaces the bytes stored under an existing key" % u.text, *whereis(u))
                elif s["conflict"] != "IGNORE":
                    ck.bad("insert data in %s" % u.root.short, "%r fails when the object is already stored" % u.text, *whereis(u))
    put = an.ds("raw_put").id
    if not any(u.root.id == put and s["k"] == "insert" and s["table"] == "data" for u in uses for s in u.stmts) and not ck.viol:
        ck.bad("raw_put stores nothing", "raw_put executes no INSERT into the table of objects", an.ds("raw_put").span)


# ------------------------------------------------------------------- C13
LOSSY = re.compile(
    r"^(Iterator::(skip|take|step_by|filter|filter_map|take_while|skip_while|map_while|nth|last|find|find_map|max|min|max_by|"
    r"min_by|max_by_key|min_by_key|reduce|dedup|unique)|itertools::\w+::(dedup|unique|unique_by|dedup_by)|"
    r"std::(vec::Vec|slice)::(truncate|pop|remove|swap_remove|drain|retain|dedup|dedup_by_key|dedup_by|split_off|clear|"
    r"split_first|split_last|split_at))$")
REORDER = re.compile(r"^(Iterator::rev|std::(slice|vec::Vec)::(reverse|sort\w*|swap|rotate_left|rotate_right)|Itertools::sorted\w*|"
                     r"DoubleEndedIterator::\w+)$")
KEEP = re.compile(r"^std::(vec::Vec|collections::\w+(::\w+)*)::(push|push_back|push_front|insert)$")


def rowloop(an, ck, fn, what):
    """Every row the query yields must end up in the returned list."""
    bad = []

    def rowsrc(eng, v):
        return any(re.match(r"^rusqlite::Statement::query\w*$", n) for n in eng.origin_calls(v))

    def pending(st):
        return [t for t in st.mon if t[0] == "row"]

    def on_result(eng, st, ev, v):
        if ev.name in ("rusqlite::Rows::next", "rusqlite::row::next") or (ev.name.endswith("::next") and "rusqlite" in ev.name):
            for t in pending(st):
                bad.append(("row skipped in %s" % fn.short, "%s can drop a row it has read" % fn.pretty(), ev.span, eng.chain(ev.ctx)))
            drop(st, lambda t: t[0] == "row")
            add(st, "maybe", ev.sid)
        return None

    def on_fact(eng, st, v, val, eq):
        # rows.next() -> Ok(Some(row))
        for t in list(st.mon):
            if t[0] == "maybe" and v[0] == "discr" and v[1][0] == "v" and v[1][1][0] in ("r", "o") and v[1][1][1] == t[1]:
                if (val == 1) == eq:
                    drop(st, lambda x: x == t)
                    add(st, "row", t[1])
                else:
                    drop(st, lambda x: x == t)

    def on_item(eng, st, ev, it, v):
        base = it[2][0]
        if rowsrc(eng, base):
            for t in pending(st):
                bad.append(("row skipped in %s" % fn.short, "%s can drop a row it has read" % fn.pretty(), ev.span, eng.chain(ev.ctx)))
            drop(st, lambda t: t[0] == "row")
            add(st, "row", v[1])

    def keep(eng, st, vals):
        for t in pending(st):
            if any(any(x[0] in ("r", "o") and x[1] == t[1] for x in eng.origins(a)) for a in vals):
                drop(st, lambda x: x == t)

    def on_call(eng, st, ev):
        if KEEP.match(ev.name):
            keep(eng, st, ev.args[1:])

    def on_ret(eng, st, f, ctx, v):
        if eng.ctxs[ctx][0] == 0 and v[0] == "agg" and v[1] == RESULT and v[2] == 0:
            keep(eng, st, [v])
            for t in pending(st):
                bad.append(("row skipped in %s" % fn.short, "%s can return without a row it has read" % fn.pretty(), f.span, ()))

    m = Mon(on_call=on_call, on_ret=on_ret, on_result=on_result, on_fact=on_fact, on_item=on_item,
            cut=[an.assoc("Key", "as_db_key"), an.assoc("Key", "from_db_key")])
    m.kept = lambda eng, st, site, v: keep(eng, st, [v])
    e = an.engine(m)
    outs = e.run(fn.id)
    ck.absorb(e, outs)
    for b in bad:
        ck.bad(*b)
    names = Counter()
    for f in e.visited_fns:
        for c, g, sp in an.p.callgraph().get(f, ([], ()))[0]:
            names[c.name] += 1
            if LOSSY.match(c.name):
                ck.bad("%s in %s" % (c.name.split("::")[-1], fn.short), "%s drops part of %s (%s)" % (fn.pretty(), what, c.name), sp)
    ck.good("row loops followed", 1)
    return names


def select_of(an, ck, fn, uses):
    out = []
    for u in uses:
        if u.root.id == fn.id:
            for s in u.stmts:
                if s["k"] == "select":
                    out.append((u, s))
    return out


def C13(an, ck):
    uses, opens, pragmas, trans, bad, engs, n = sqluse.collect(an, ck)
    sch = sqluse.schema(uses)
    if "reflog" not in sch:
        raise CheckError("the table of ref history (reflog) is not created anywhere")
    t, tu = sch["reflog"]
    if t["norowid"] or ("id",) not in t["pk"] or t.get("pktype") != "INTEGER":
        if t["norowid"]:
            ck.bad("reflog id", "the ref history has no ascending row number", *whereis(tu))
    for x in t["unique"]:
        ck.bad("reflog unique", "the ref history cannot hold two entries with the same %s" % ", ".join(x), *whereis(tu))
    rowid = {"id", "rowid", "_rowid_", "oid"} if ("id",) in t["pk"] and t.get("pktype") == "INTEGER" else {"rowid", "_rowid_", "oid"}
    for c, d in t.get("defs", {}).items():
        if "COLLATE" in d and "BINARY" not in d:
            ck.bad("reflog.%s collation" % c, "reflog.%s is not compared literally" % c, *whereis(tu))
    R = roles(an)
    get, walk, push = an.ds("reflog_get"), an.ds("reflog_walk"), an.ds("reflog_push")
    pushes = 0
    for u in uses:
        for s in u.stmts:
            ck.good("statements classified")
            k = s["k"]
            if k == "?":
                if "reflog" in s["words"] and s["verb"].upper() not in ("SELECT", "WITH", "EXPLAIN"):
                    ck.bad("%s reflog in %s" % (s["verb"], u.root.short), "%r may change recorded history" % u.text, *whereis(u))
            elif k in ("update", "delete", "drop", "alter") and s.get("table") == "reflog":
                ck.bad("%s reflog in %s" % (k, u.root.short), "%r changes or removes recorded history" % u.text, *whereis(u))
            elif k == "create" and s["obj"] == "TRIGGER":
                ck.bad("trigger in %s" % u.root.short, "%r may change recorded history" % u.text, *whereis(u))
            elif k == "create" and s["obj"] == "INDEX" and s["uniqueindex"] and s.get("table") == "reflog":
                ck.bad("unique index in %s" % u.root.short, "%r limits the ref history" % u.text, *whereis(u))
            elif k == "insert" and s["table"] == "reflog":
                if s["conflict"] in ("REPLACE", "IGNORE"):
                    ck.bad("insert or %s reflog in %s" % (s["conflict"].lower(), u.root.short),
                           "%r does not append in every case" % u.text, *whereis(u))
                if u.root.id == push.id:
                    cs = dict(sqluse.insert_cols(s, sch) or ())
                    for col in ("refname", "remote", "key"):
                        e = cs.get(col)
                        v = sqluse.bound(u, s, e) if e else None
                        if e is None or (v is not None and not fits(u.eng, v, R[push.id][("reflog", col)])) or e[0] != "param":
                            ck.bad("reflog.%s pushed" % col, "the %s recorded in the history is %s" % (
                                col, u.eng.show(v) if v is not None else "not the one given"), *whereis(u))
                    if "id" in cs and cs["id"][0] != "null":
                        ck.bad("reflog.id pushed", "the row number of a history entry is chosen by the program", *whereis(u))
    # reflog_push appends exactly once on every successful path
    over = []

    def on_exec(eng, st, ev, stmts, ps):
        for s in stmts:
            if s["k"] == "insert" and s["table"] == "reflog":
                if has(st, "pushed"):
                    over.append(("reflog_push twice", "reflog_push can append two entries", ev.span, eng.chain(ev.ctx)))
                add(st, "pushed")

    def on_ret(eng, st, f, ctx, v):
        if eng.ctxs[ctx][0] == 0 and not (v[0] == "agg" and v[1] == RESULT and v[2] == 1):
            ck.good("ends of reflog_push")
            if not has(st, "pushed"):
                over.append(("reflog_push without insert", "reflog_push can succeed without appending an entry", f.span, ()))
    e, outs = sqluse.run(an, push, on_exec, on_ret)
    ck.absorb(e, outs)
    for b in over:
        ck.bad(*b)
    # lookups
    for f, one in ((get, True), (walk, False)):
        sel = select_of(an, ck, f, uses)
        if not sel:
            ck.bad("%s reads nothing" % f.short, "%s executes no SELECT that can be read" % f.pretty(), f.span)
            continue
        for u, s in sel:
            ck.good("history queries")
            ck.sample(u.text)
            where = sql.conj(s["where"])
            cps = [sql.colparam(x) for x in where]
            loc = whereis(u)
            if s["from"] != "reflog":
                ck.bad("%s table" % f.short, "%s reads %s" % (f.pretty(), s["from"]), *loc)
            seen = Counter()
            for x, cp in zip(where, cps):
                if cp is None:
                    ck.bad("%s condition" % f.short, "%r has a condition that is not an exact match with the name or the remote given: %s" % (u.text, showexpr(x)), *loc)
                    continue
                op, c, i = cp
                seen[c] += 1
                if c not in ("refname", "remote") or op not in ("=", "is") or (c == "remote" and op != "is"):
                    ck.bad("%s condition %s" % (f.short, c), "%r matches %s by %s%s" % (
                        u.text, c, op.upper(), ": no remote (NULL) never matches" if c == "remote" and op == "=" else ""), *loc)
                    continue
                v = sqluse.bound(u, s, ("param", i))
                if v is not None and not fits(u.eng, v, R[f.id][("reflog", c)]):
                    ck.bad("%s bound %s" % (f.short, c), "%s looks up %s = %s" % (f.pretty(), c, u.eng.show(v)), *loc)
            for c in ("refname", "remote"):
                if not seen[c] and not any(cp is None for cp in cps):
                    ck.bad("%s misses %s" % (f.short, c), "%r does not select by %s" % (u.text, c), *loc)
            if s["cols"] != [("col", "key")] and ("col", "key") not in s["cols"]:
                ck.bad("%s column" % f.short, "%r does not read the key" % u.text, *loc)
            o = s["order"]
            o0 = (o[0][0][1], o[0][1]) if o and o[0][0][0] == "col" else (None, o[0][1] if o else None)
            s["_desc"] = o0[0] in rowid and o0[1] == "DESC"
            s["_asc"] = o0[0] in rowid and o0[1] == "ASC"
            if one and not s["_desc"]:
                mx = any(c[0] == "fn" and c[1] == "max" for c in s["cols"])
                if not mx:
                    ck.bad("%s order" % f.short, "%r does not return the entry appended last" % u.text, *loc)
            if not one:
                if s["limit"] is not None:
                    ck.bad("%s limit" % f.short, "%r does not return all entries" % u.text, *loc)
                if s["distinct"]:
                    ck.bad("%s distinct" % f.short, "%r merges repeated entries" % u.text, *loc)
                if not s["_desc"] and not s["_asc"]:
                    ck.bad("%s order" % f.short, "%r does not list the entries newest first" % u.text, *loc)
            if one and s["limit"] is not None and s["limit"] != ("num", "1"):
                if s["limit"] == ("num", "0"):
                    ck.bad("%s limit" % f.short, "%r never returns an entry" % u.text, *loc)
    names = rowloop(an, ck, walk, "the ref history")
    turns = sum(n for k, n in names.items() if REORDER.match(k))
    front = sum(n for k, n in names.items() if re.search(r"::(push_front|insert)$", k) and k.startswith("std::"))
    for u, s in select_of(an, ck, walk, uses):
        if s.get("_desc") and (turns or front):
            ck.bad("walk reordered", "reflog_walk reorders entries that the query lists newest first", u.ev.span)
        if s.get("_asc") and turns + front != 1:
            ck.bad("walk order", "reflog_walk lists the entries oldest first", u.ev.span)
    # what the commands ask for
    refargs(an, ck)


HEADS = ("get_head",)


def refargs(an, ck):
    """Commands hand the names they were given to the history unchanged."""
    get, walk, push, canon = an.ds("reflog_get"), an.ds("reflog_walk"), an.ds("reflog_push"), an.ds("canonicalize")
    cut = {an.ds(m).id for m in ("get_head", "put_head", "reflog_get", "reflog_walk", "reflog_push", "canonicalize", "get_obj", "put_obj",
                                 "raw_get", "raw_put", "put")}
    cg = an.p.callgraph()
    lib = {f.id for f in an.local_roots() if not f.id.startswith("bin::")}
    users = [f for f in an.handlers.values() if an.p.reachable([f.id]) & {get.id, walk.id, push.id}]
    for h in users:
        seen = []

        def leaf(eng, v):
            return strip(eng, v)

        def on_call(eng, st, ev):
            if ev.local is None or ev.tm is None or ev.tm[0] != "DataStore":
                return
            m = ev.tm[1]
            if m in ("reflog_get", "reflog_walk"):
                seen.append((eng, ev, "refname", ev.args[1], dict(st.facts)))
                seen.append((eng, ev, "remote", ev.args[2], dict(st.facts)))
            elif m == "reflog_push":
                a = ev.args[1]
                if a[0] == "agg":
                    for n in ("refname", "remote"):
                        seen.append((eng, ev, n, a[3][an.field("snapcd::ds::Reflog", n)], dict(st.facts)))

        def cutp(eng, fn):
            return fn.id in lib and fn.id not in (get.id, walk.id, push.id) and not (
                an.p.reachable([fn.id]) & {get.id, walk.id, push.id}) or fn.id in cut
        e = an.engine(Mon(on_call=on_call, cutp=cutp))
        outs = e.run(h.id)
        ck.absorb(e, outs)
        pay = next((i for i in range(h.argc) if h.locals[i + 1][0]["s"].endswith("Args")), None)
        given = {x[0] for x in an.adts.get(h.locals[pay + 1][0]["s"], {"v": [["", []]]})["v"][0][1]} if pay is not None else set()
        if pay is not None and not given:
            given = {x[0] for x in an.adts.get("bin::" + h.locals[pay + 1][0]["s"].split("::")[-1], {"v": [["", []]]})["v"][0][1]}
        for eng, ev, what, v, facts_ in seen:
            ck.good("names handed to the ref history")
            loc = (ev.span, eng.chain(ev.ctx))
            key = "%s of %s in %s" % (what, ev.name, h.short)
            mine = param(h, pay, what) if pay is not None else None
            for x in strip(eng, v):
                root = x
                while root[0] in ("v", "f", "conv"):
                    root = root[1]
                if mine is not None and x in (mine, mk("v", mine, 1, 0)):
                    continue
                if what == "refname" and root[0] in ("r", "o") and eng.sites[root[1]].name.endswith("::get_head"):
                    continue
                if what == "remote" and x == NONE:
                    d = facts_.get(mk("discr", mine)) if what in given else ("=", 0)
                    if d is not None and (d == ("=", 0) or d[0] == "!" and 1 in d[1]):
                        continue
                if x[0] in ("p", "f", "v") and what not in given:
                    continue
                ck.bad(key, "%s looks up or records the %s %s instead of the one it was given" % (h.pretty(), what, eng.show(x)), *loc)


# ------------------------------------------------------------------- C16
def evalb(v, cnt, n):
    """Value of a term when the count is n; None if unknown."""
    if v in cnt:
        return n
    if v[0] == "c" and v[1] == "int":
        return v[2]
    if v[0] == "conv":
        return evalb(v[1], cnt, n)
    if v[0] == "bin":
        a, b = evalb(v[2], cnt, n), evalb(v[3], cnt, n)
        if a is None or b is None:
            return None
        return {"Eq": lambda: int(a == b), "Ne": lambda: int(a != b), "Lt": lambda: int(a < b), "Le": lambda: int(a <= b),
                "Gt": lambda: int(a > b), "Ge": lambda: int(a >= b), "BitAnd": lambda: a & b, "BitOr": lambda: a | b,
                }.get(v[1], lambda: None)()
    if v[0] == "un" and v[1] == "Not":
        a = evalb(v[2], cnt, n)
        return None if a is None else 1 - a
    return None


def exists_rule(an, ck):
    uses = sqluse.collect(an, ck)[0]
    f = an.ds("raw_exists")
    R = roles(an)
    sel = select_of(an, ck, f, uses)
    if not sel:
        ck.bad("raw_exists reads nothing", "raw_exists executes no SELECT that can be read", f.span)
    for u, s in sel:
        ck.good("existence queries")
        w = [sql.colparam(x) for x in sql.conj(s["where"])]
        subs = [c for c in s["cols"] if c[0] == "exists"]
        if subs and not w:
            s2 = subs[0][1]
            w = [sql.colparam(x) for x in sql.conj(s2["where"])]
            tab = s2["from"]
        else:
            tab = s["from"]
        ok_ = tab == "data" and len(w) == 1 and w[0] and w[0][0] in ("=", "is") and w[0][1] == "key"
        if ok_:
            v = sqluse.bound(u, s, ("param", w[0][2]))
            ok_ = v is None or fits(u.eng, v, R[f.id][("data", "key")])
        if not ok_:
            ck.bad("raw_exists query", "%r does not look for exactly the key given" % u.text, *whereis(u))
    counts = all(s["cols"] and s["cols"][0][0] == "fn" and s["cols"][0][1] == "count" or (s["cols"] and s["cols"][0][0] == "exists")
                 for u, s in sel)
    cnts = {0: set(), 1: set()}
    out = []

    def on_ret(eng, st, fn, ctx, v):
        if eng.ctxs[ctx][0] == 0 and v[0] == "agg" and v[1] == RESULT and v[2] == 0:
            out.append((eng, dict(st.facts), v[3][0]))
    e, outs = sqluse.run(an, f, on_ret=on_ret)
    ck.absorb(e, outs)
    if counts and sel:
        for n in (0, 1):
            for eng, facts_, v in out:
                cnt = set()
                for x in eng.origins(v) | {y for t in facts_ for y in eng.origins(t)}:
                    if x[0] == "v" and x[1][0] in ("r", "o") and "query_row" in eng.sites[x[1][1]].name:
                        cnt.add(x)
                feasible = True
                for t, (o, val) in facts_.items():
                    b = evalb(t, cnt, n)
                    if b is not None and not ((b == val) if o == "=" else (b not in val)):
                        feasible = False
                if not feasible:
                    continue
                b = evalb(v, cnt, n)
                ck.good("answers of raw_exists compared with the count")
                if b is not None and b != n:
                    ck.bad("raw_exists answer for %d" % n, "raw_exists answers %s when %s stored" % (
                        bool(b), "the key is" if n else "nothing is"), f.span)


def between_rule(an, ck):
    uses = sqluse.collect(an, ck)[0]
    f = an.ds("raw_between")
    R = roles(an)
    end = param(f, 2)
    bad = []
    nex = [0]

    def on_exec(eng, st, ev, stmts, ps):
        for s in stmts:
            if s["k"] != "select":
                continue
            nex[0] += 1
            fd = st.facts.get(mk("discr", end))
            isnone = fd in (("=", 0),) or (fd is not None and fd[0] == "!" and 1 in fd[1])
            issome = fd in (("=", 1),) or (fd is not None and fd[0] == "!" and 0 in fd[1])
            u = sqluse.Use(params=ps)
            loc = (ev.span, eng.chain(ev.ctx))
            low = up = False
            for x in sql.conj(s["where"]):
                cp = sql.colparam(x)
                if cp is None:
                    if x[0] == "or":      # end may be absent: (? IS NULL OR key < ?)
                        arms = [x[1], x[2]]
                        ups = [sql.colparam(a) for a in arms if sql.colparam(a)]
                        if any(c and c[:2] == ("<", "key") for c in ups):
                            up = "opt"
                            continue
                    bad.append(("raw_between condition", "raw_between restricts the search by %s" % showexpr(x), *loc))
                    continue
                op, c, i = cp
                v = sqluse.bound(u, s, ("param", i))
                if c == "key" and op == ">=":
                    low = True
                    if v is not None and not fits(eng, v, R[f.id][("data", "key", ">=")]):
                        bad.append(("raw_between start", "raw_between starts at %s" % eng.show(v), *loc))
                elif c == "key" and op == "<":
                    up = True
                    if v is not None and not fits(eng, v, R[f.id][("data", "key", "<")]):
                        bad.append(("raw_between end", "raw_between ends at %s" % eng.show(v), *loc))
                else:
                    bad.append(("raw_between condition %s %s" % (c, op), "raw_between selects by %s %s ?" % (c, op), *loc))
            if not low:
                bad.append(("raw_between no start", "raw_between has no lower bound at the start given", *loc))
            if issome and not up:
                bad.append(("raw_between no end", "raw_between ignores the end of the range", *loc))
            if isnone and up is True:
                bad.append(("raw_between end without one", "raw_between has an upper bound although none was given", *loc))
            if not isnone and not issome and not up:
                bad.append(("raw_between no end", "raw_between ignores the end of the range", *loc))
            if s["limit"] is not None:
                bad.append(("raw_between limit", "raw_between does not return all matching keys", *loc))
            if s["from"] != "data" or ("col", "key") not in s["cols"]:
                bad.append(("raw_between source", "raw_between does not read the keys of the stored objects", *loc))
    e, outs = sqluse.run(an, f, on_exec)
    ck.absorb(e, outs)
    for b in bad:
        ck.bad(*b)
    if not nex[0]:
        ck.bad("raw_between reads nothing", "raw_between executes no SELECT that can be read", f.span)
    ck.good("range queries in every state of the end", nex[0])
    rowloop(an, ck, f, "the candidates")


VV = re.compile(r"Vec<\w*(std::vec::)?Vec<u8>>")
OBSERVED = re.compile(r"::(len|is_empty|pop|push|first|last|get|iter|into_iter|next|index|deref|deref_mut|as_slice|as_ref|"
                      r"remove|swap_remove|drop|clone|drop_in_place|map|collect|unwrap|expect|cloned|enumerate|split_first|"
                      r"new_debug|new_display|branch|from_residual|extend|append|with_capacity|new|default)$")


def canon_rule(an, ck):
    f = an.ds("canonicalize")
    kx = "snapcd::keyish::Keyish" if "snapcd::keyish::Keyish" in an.adts else "snapcd::Keyish"
    ce = "snapcd::ds::CanonicalizeError"
    NF, AM = an.variant(ce, "NotFound"), an.variant(ce, "Ambigious")
    KEY, RANGE, REF = (an.variant(kx, n) for n in ("Key", "Range", "Reflog"))
    search = param(f, 1)
    cut = [an.ds(m) for m in ("raw_exists", "raw_between", "reflog_get")] + [an.assoc("Key", "from_db_key")]
    ids = {an.ds(m).id: m for m in ("raw_exists", "raw_between", "reflog_get")}
    bad = []

    def cnt(st):
        for t in st.mon:
            if t[0] == "cnt":
                return t[1]
        return None

    def setcnt(st, c):
        drop(st, lambda t: t[0] == "cnt")
        add(st, "cnt", c)

    def isvv(eng, v):
        """The list of candidates (not one of them)."""
        for x in strip(eng, v):
            if x[0] in ("r", "o") and (eng.sites[x[1]].name.endswith("raw_between") or VV.search((eng.sites[x[1]].dty or {}).get("s", "") if isinstance(eng.sites[x[1]].dty, dict) else "")):
                return True
            if x[0] == "v" and x[1][0] in ("r", "o") and eng.sites[x[1][1]].name.endswith("raw_between"):
                return True
            if x[0] == "mut":
                return isvv(eng, x[1])
        return False

    def on_call(eng, st, ev):
        if ev.local is not None and ev.local.id in ids:
            m = ids[ev.local.id]
            want = {"raw_exists": [mk("v", search, KEY, 1)],
                    "raw_between": [mk("v", search, RANGE, 1), mk("v", search, RANGE, 2)],
                    "reflog_get": [mk("v", search, REF, "keyname"), mk("v", search, REF, "remote")]}[m]
            ck.good("store lookups of canonicalize")
            if m == "reflog_get":
                vs = an.adts[kx]["v"][REF][1]
                idx = {x[0]: i for i, x in enumerate(vs)}
                want = [mk("v", search, REF, idx.get("keyname", 2)), mk("v", search, REF, idx.get("remote", 1))]
            for w, a in zip(want, ev.args[1:]):
                got = strip(eng, a)
                d = st.facts.get(mk("discr", w))
                isnone = d is not None and (d == ("=", 0) or d[0] == "!" and 1 in d[1])
                if got == {NONE} and isnone:
                    continue
                if got == {NONE} or not got <= {w, mk("v", w, 1, 0), NONE} and all(x[0] == "v" and x[1] == search or x[0] == "c" for x in got):
                    bad.append(("%s argument" % m, "canonicalize calls %s with %s" % (m, eng.show(a)), ev.span, eng.chain(ev.ctx)))
        n = ev.name
        if ev.argtys and VV.search(ev.argtys[0].get("s", "")) if getattr(ev, "argtys", None) else False:
            if n.endswith("Vec::push"):
                c = cnt(st)
                if c is not None:
                    setcnt(st, frozenset(min(x + 1, 2) for x in c))
            elif LOSSY.match(n) and n.startswith("std::") and not n.endswith(("pop", "remove", "split_first", "split_last")):
                bad.append(("candidates dropped by %s" % n, "candidates are dropped (%s) before they are counted" % n, ev.span, eng.chain(ev.ctx)))
            elif not OBSERVED.search(n):
                add(st, "unknown")

    def on_result(eng, st, ev, v):
        n = ev.name
        if ev.local is not None and ev.local.id in ids:
            m = ids[ev.local.id]
            out = []
            for s2, x, good in fork(eng, st, v):
                if good:
                    add(s2, "did", m)
                    if m == "raw_between":
                        setcnt(s2, frozenset((0, 1, 2)))
                        out.append((s2, x))
                    elif m == "raw_exists":
                        for b in (0, 1):
                            s3 = s2.copy()
                            if eng.assume(s3, x[3][0], b):
                                add(s3, "exists", b)
                                out.append((s3, x))
                    else:
                        out.append((s2, x))
                else:
                    out.append((s2, x))
            return out
        if ev.dty and VV.match(ev.dty["s"].replace("std::vec::", "")) and n.endswith(("Vec::new", "Vec::with_capacity")):
            if cnt(st) is None:
                setcnt(st, frozenset((0,)))
        if n.endswith(("Vec::pop", "::remove", "::swap_remove")) and isvv(eng, ev.args[0]):
            pass
        return None

    def on_fact(eng, st, v, val, eq):
        c = cnt(st)
        if c is None:
            return
        if v[0] in ("r", "o"):
            s = eng.sites[v[1]]
            if s.name.endswith(("::len", "un:PtrMetadata")) and any(a and (isvv(eng, a[0])) for a in s.args):
                setcnt(st, frozenset(x for x in c if ((x == val) if x < 2 else val >= 2) == eq or (x == 2 and val >= 2)))
            elif s.name.endswith("::is_empty") and any(a and isvv(eng, a[0]) for a in s.args):
                z = bool(val) == eq
                setcnt(st, frozenset(x for x in c if (x == 0) == z))
        elif v[0] == "bin":
            for i, j in ((2, 3), (3, 2)):
                a, b = v[i], v[j]
                ln = [x for x in strip(eng, a) if x[0] in ("r", "o") and eng.sites[x[1]].name.endswith(("::len", "un:PtrMetadata")) and any(
                    z and isvv(eng, z[0]) for z in eng.sites[x[1]].args)]
                if ln and b[0] == "c" and b[1] == "int":
                    truth = bool(val) == eq
                    keep = set()
                    for x in c:
                        for real in ([x] if x < 2 else [2, 3, 50]):
                            l, r = (real, b[2]) if i == 2 else (b[2], real)
                            y = {"Eq": l == r, "Ne": l != r, "Lt": l < r, "Le": l <= r, "Gt": l > r, "Ge": l >= r}.get(v[1])
                            if y is None or y == truth:
                                keep.add(x)
                    setcnt(st, frozenset(keep))
                    return
        elif v[0] == "discr" and v[1][0] in ("r", "o"):
            s = eng.sites[v[1][1]]
            if s.name.endswith(("::pop", "::first", "::last")) and any(a and isvv(eng, a[0]) for a in s.args):
                z = (val == 0) == eq
                setcnt(st, frozenset(x for x in c if (x == 0) == z))

    nend = Counter()

    def on_ret(eng, st, fn, ctx, v):
        if eng.ctxs[ctx][0] != 0 or has(st, "unknown"):
            return
        c = cnt(st)
        if c is not None and not c:
            return                  # cannot happen
        did = {t[1] for t in st.mon if t[0] == "did"}
        loc = (fn.span, ())
        if not (v[0] == "agg" and v[1] == RESULT):
            return
        if v[2] == 0:
            nend["resolved"] += 1
            calls = eng.origin_calls(v[3][0])
            if "reflog_get" in did:
                if not any(x.endswith("reflog_get") for x in calls):
                    bad.append(("ref resolves elsewhere", "a ref name can resolve to %s instead of the ref's tip" % eng.show(v[3][0]), *loc))
            elif "raw_between" in did:
                if c is not None and not c <= {1}:
                    bad.append(("abbreviation guessed", "an abbreviation can resolve although %s stored keys match" % (
                        "several" if 2 in c else "no"), *loc))
                if not any(x.endswith("raw_between") for x in calls):
                    bad.append(("abbreviation resolves elsewhere", "an abbreviation can resolve to %s, which is not one of the matching keys" % eng.show(v[3][0]), *loc))
            elif "raw_exists" in did:
                if not has(st, "exists", 1):
                    bad.append(("absent key resolves", "a full key can resolve although it is not stored", *loc))
                if not within(eng, v[3][0], [mk("v", search, KEY, 1)]):
                    bad.append(("key resolves elsewhere", "a full key can resolve to %s" % eng.show(v[3][0]), *loc))
            else:
                bad.append(("resolves unchecked", "canonicalize can succeed without looking into the store: %s" % eng.show(v[3][0]), *loc))
        else:
            x = v[3][0]
            if x[0] == "agg" and x[1] == ce and x[2] == NF:
                nend["not found"] += 1
                if "raw_between" in did and c is not None and not c <= {0}:
                    bad.append(("match not found", "an abbreviation can be reported as not found although %s" % (
                        "exactly one key matches" if 1 in c else "several keys match"), *loc))
                if "raw_exists" in did and has(st, "exists", 1) and "raw_between" not in did:
                    bad.append(("stored key not found", "a full key can be reported as not found although it is stored", *loc))
            if x[0] == "agg" and x[1] == ce and x[2] == AM:
                nend["ambiguous"] += 1
                if c is not None and not c <= {2}:
                    bad.append(("unique match ambiguous", "a key can be reported as ambiguous although at most one stored key matches", *loc))
                for y in eng.origins(x[3][1]):
                    nm = None
                    if y[0] == "it":
                        nm = "Iterator::" + y[1]
                    elif y[0] in ("r", "o"):
                        nm = eng.sites[y[1]].name
                    if nm and LOSSY.match(nm):
                        bad.append(("candidates dropped", "the list of ambiguous candidates is cut short (%s)" % nm, *loc))
                if c is not None and not any(z.endswith("raw_between") for z in eng.origin_calls(x[3][1])):
                    bad.append(("candidates missing", "the list of ambiguous candidates does not come from the search", *loc))

    e = an.engine(Mon(cut=cut, on_call=on_call, on_result=on_result, on_fact=on_fact, on_ret=on_ret))
    outs = e.run(f.id)
    ck.absorb(e, outs)
    for b in bad:
        ck.bad(*b)
    for k, n in nend.items():
        ck.good("ends of canonicalize: " + k, n)
    if not nend:
        raise CheckError("canonicalize has no end")


def C16(an, ck):
    exists_rule(an, ck)
    between_rule(an, ck)
    canon_rule(an, ck)


# ------------------------------------------------------------------- C18
SYNC = {"2", "full", "3", "extra"}
JOURNAL = {"truncate", "delete", "persist", "wal"}


def C18(an, ck):
    uses, opens, pragmas, trans, bad, engs, n = sqluse.collect(an, ck)
    dsopen = [u for u in opens if sqluse.owner(u) != "cache"]
    if not any(sqluse.owner(u) == "ds" for u in dsopen):
        raise CheckError("no place opens the object database")
    roots = {u.root.id: u.root for u in dsopen}
    for rid, root in roots.items():
        out = []

        def setp(st, name, val):
            name = name.lower()
            if name in ("synchronous", "journal_mode"):
                drop(st, lambda t: t[0] == "set" and t[1] == name)
                add(st, "set", name, (val or "?").lower())

        def state(st):
            d = {t[1]: t[2] for t in st.mon if t[0] == "set"}
            miss = []
            if d.get("synchronous") not in SYNC:
                miss.append("synchronous is %s" % d.get("synchronous", "not set"))
            if d.get("journal_mode") not in JOURNAL:
                miss.append("journal_mode is %s" % d.get("journal_mode", "not set"))
            return miss

        def on_call(eng, st, ev):
            if ev.local is not None:
                return
            if ev.name.startswith("rusqlite::Connection::open"):
                if "in_memory" in ev.name:
                    add(st, "memory")
                drop(st, lambda t: t[0] == "set")
                add(st, "open")
                ck.good("openings of the object database")
            if ev.name in sqluse.PRAGMA:
                a, b = sqluse.PRAGMA[ev.name]
                nm = sqluse.text(ev.args[a])
                v = sqluse.text(ev.args[b])
                if v is None and ev.args[b][0] == "c" and ev.args[b][1] == "int":
                    v = [str(ev.args[b][2])]
                for x in nm or ():
                    setp(st, x, v[0] if v and len(v) == 1 else None)
                return
            x = sqluse.exec_of(eng, ev)
            if x:
                for s in x[0]:
                    if s["k"] == "pragma":
                        if s["value"] is not None:
                            setp(st, s["name"], s["value"])
                    elif has(st, "open") and state(st):
                        out.append(("use before durability in %s" % root.short, "the object database is used while %s" % " and ".join(state(st)), ev.span, eng.chain(ev.ctx)))

        def on_ret(eng, st, f, ctx, v):
            if eng.ctxs[ctx][0] == 0 and has(st, "open") and not (v[0] == "agg" and v[1] == RESULT and v[2] == 1):
                ck.good("connections handed out")
                if state(st):
                    out.append(("durability in %s" % root.short, "a connection to the object database is handed out while %s" % " and ".join(state(st)), f.span, ()))
        e = an.engine(Mon(on_call=on_call, on_ret=on_ret))
        outs = e.run(rid)
        ck.absorb(e, outs)
        for b in out:
            ck.bad(*b)
    WEAK = {"synchronous": SYNC, "journal_mode": JOURNAL}
    for u in pragmas:
        if sqluse.owner(u) == "cache":
            continue
        for nm in u.name or ():
            nm = nm.lower()
            v = sqluse.text(u.value)
            if u.root.id not in roots and nm in WEAK and (not v or v[0].lower() not in WEAK[nm]):
                ck.bad("%s in %s" % (nm, u.root.short), "%s sets %s to %s" % (u.root.pretty(), nm, u.eng.show(u.value)), *whereis(u))
            if nm in ("writable_schema", "ignore_check_constraints", "locking_mode", "fullfsync") and nm != "fullfsync" and v and v[0].lower() in ("on", "1", "true"):
                ck.bad("%s in %s" % (nm, u.root.short), "%s sets %s" % (u.root.pretty(), nm), *whereis(u))
    for u in uses:
        if sqluse.owner(u) == "cache":
            continue
        for s in u.stmts:
            ck.good("statements looked at for weakening")
            if s["k"] == "pragma" and s["value"] is not None and u.root.id not in roots and s["name"] in WEAK and s["value"] not in WEAK[s["name"]]:
                ck.bad("%s in %s" % (s["name"], u.root.short), "%s executes %r" % (u.root.pretty(), u.text), *whereis(u))
    # the relaxed store is only used for the cache
    who(an, ck)


def who(an, ck):
    """main opens the cache only on the per-user cache path, and the store on the repository's path."""
    p = an.p
    cachenew, dsnew = an.assoc("SqliteCache", "new"), an.assoc("SqliteDS", "new")
    for f in an.local_roots():
        for c, g, sp in p.callgraph()[f.id][0]:
            if g is not None and (g is cachenew or getattr(g, "id", g) == cachenew.id):
                ck.good("openings of the relaxed cache database")
    for f in an.p.fns.values():
        s = f.d.get("self", {}).get("s", "")
        if f.d.get("trait", "").split("::")[-1] == "DataStore" and "Cache" in s:
            ck.bad("DataStore for %s" % s, "the relaxed cache database is used as an object store", f.span)
