"""Every SQL text the program hands to SQLite, with the values bound to it."""
from .core import *
from . import sql

# callee -> (index of the SQL text, index of the parameters)
DIRECT = {
    "rusqlite::Connection::execute": (1, 2),
    "rusqlite::Connection::execute_named": (1, 2),
    "rusqlite::Connection::query_row": (1, 2),
    "rusqlite::Connection::query_row_named": (1, 2),
    "rusqlite::Connection::query_row_and_then": (1, 2),
    "rusqlite::Connection::execute_batch": (1, None),
}
PREP = {"rusqlite::Connection::prepare": 1, "rusqlite::cache::prepare_cached": 1,
        "rusqlite::Connection::prepare_cached": 1, "rusqlite::Connection::prepare_with_flags": 1}
STMT = {"rusqlite::Statement::%s" % m: 1 for m in
        ("execute", "query", "query_map", "query_and_then", "query_row", "insert", "exists", "execute_named",
         "query_named", "query_map_named")}
PRAGMA = {"rusqlite::pragma::pragma_update": (2, 3), "rusqlite::Connection::pragma_update": (2, 3),
          "rusqlite::pragma::pragma_update_and_check": (2, 3)}
TRANS = {"rusqlite::transaction::transaction", "rusqlite::Connection::transaction", "rusqlite::Connection::savepoint",
         "rusqlite::transaction::savepoint", "rusqlite::Connection::unchecked_transaction",
         "rusqlite::transaction::unchecked_transaction", "rusqlite::Connection::transaction_with_behavior",
         "rusqlite::transaction::new", "rusqlite::transaction::new_unchecked", "rusqlite::Transaction::new",
         "rusqlite::Transaction::new_unchecked"}


def is_rusqlite(n):
    return n.startswith("rusqlite::")


def text(v):
    """The constant texts a value can be, or None."""
    if v[0] == "c" and v[1] == "bytes":
        try:
            return [bytes.fromhex(v[2]).decode()]
        except Exception:
            return None
    if v[0] == "or":
        out = []
        for x in v[1]:
            t = text(x)
            if t is None:
                return None
            out += t
        return out
    return None


class Use:
    """One execution of SQL: root function, statement, bound values."""

    def __init__(self, **k):
        self.__dict__.update(k)

    def __repr__(self):
        return "%s: %s %s" % (self.root.short, self.text, self.params and len(self.params))


def roots(an):
    p = an.p
    cg = p.callgraph()
    direct = set()
    for f in an.local_roots():
        for c, g, sp in cg[f.id][0]:
            if g is None and (c.name in DIRECT or c.name in PREP or c.name in STMT or c.name in PRAGMA
                              or c.name in TRANS or c.name == "rusqlite::Connection::open"):
                direct.add(f.id)
    own = []
    for f in an.local_roots():
        ty = f.d.get("self", {}).get("s", "").split("::")[-1].split("<")[0]
        if ty in ("SqliteDS", "SqliteCache") and "::{closure" not in f.id and (f.d.get("trait") or f.d.get("vis")):
            if direct & p.reachable([f.id]):
                own.append(f)
    seen = p.reachable([f.id for f in own])
    rest = [p.fn(x) for x in sorted(direct - seen)]
    return own + rest, direct


def collect(an, ck=None):
    """[Use], and the functions whose SQL text is not fixed."""
    if hasattr(an, "_sqluses"):
        uses, opens, pragmas, trans, bad, engs, nroots = an._sqluses
        if ck is not None:
            for e, o in engs:
                ck.absorb(e, o)
        return an._sqluses
    rs, direct = roots(an)
    uses, opens, pragmas, trans, bad = [], [], [], [], []
    engs = []
    for f in rs:
        rec = {}

        def on_call(eng, st, ev):
            if ev.local is not None:
                return
            n = ev.name
            if n in DIRECT or n in PREP or n in STMT or n in PRAGMA or n in TRANS or n.startswith("rusqlite::Connection::open"):
                rec.setdefault((ev.sid, tuple(ev.args)), ev)

        e = an.engine(Mon(on_call=on_call, cut=[an.assoc("Key", "as_db_key"), an.assoc("Key", "from_db_key")]))
        outs = e.run(f.id)
        engs.append((e, outs))
        if ck is not None:
            ck.absorb(e, outs)
        for (sid, args), ev in rec.items():
            n = ev.name
            base = dict(root=f, ev=ev, fn=ev.fn, eng=e, call=n, conn=args[0] if args else None)
            if n in TRANS:
                trans.append(Use(text=n, stmts=[], params=None, **base))
                continue
            if n.startswith("rusqlite::Connection::open"):
                opens.append(Use(text=n, stmts=[], params=None, arg=args[0] if args else None, **base))
                continue
            if n in PRAGMA:
                a, b = PRAGMA[n]
                pragmas.append(Use(name=text(args[a]), value=args[b], text="PRAGMA", stmts=[], params=None, **base))
                continue
            if n in DIRECT:
                i, j = DIRECT[n]
                ts = text(args[i])
                ps = args[j] if j is not None else None
            elif n in PREP:
                ts = text(args[PREP[n]])
                ps = None
                if ts is None:
                    bad.append((f, ev, args[PREP[n]], e))
                else:
                    for t in ts:      # parsed for its form only
                        try:
                            sql.parse(t)
                        except sql.SqlError as x:
                            raise CheckError("cannot read the SQL text %r: %s" % (t, x))
                continue
            else:
                ts = []
                for x in e.origins(args[0]):
                    if x[0] in ("r", "o"):
                        s = e.sites[x[1]]
                        if s.name in PREP:
                            for a in s.args:
                                if len(a) > PREP[s.name]:
                                    t = text(a[PREP[s.name]])
                                    if t:
                                        ts += t
                ts = sorted(set(ts)) or None
                ps = args[1] if len(args) > 1 else None
                if ts is None:
                    bad.append((f, ev, args[0], e))
                    continue
            if ts is None:
                bad.append((f, ev, args[DIRECT[n][0]], e))
                continue
            for t in ts:
                try:
                    stmts = sql.parse(t)
                except sql.SqlError as x:
                    raise CheckError("cannot read the SQL text %r: %s" % (t, x))
                uses.append(Use(text=t, stmts=stmts, params=params(ps), pterm=ps, **base))
    an._sqluses = (uses, opens, pragmas, trans, bad, engs, len(rs))
    return an._sqluses


def params(v):
    """The bound values in order, or None if their number is not known."""
    if v is None:
        return None
    if v[0] == "agg" and v[1] == "array":
        return list(v[3])
    if v[0] == "c":
        return []
    return None


def owner(u):
    """Which database a use works on: 'ds', 'cache' or '?'."""
    ty = u.root.d.get("self", {}).get("s", "").split("::")[-1].split("<")[0]
    return {"SqliteDS": "ds", "SqliteCache": "cache"}.get(ty, "?")


def bound(u, stmt, e):
    """The value bound to a placeholder expression ('param', n or name), or None."""
    if e[0] != "param" or u.params is None:
        return None
    if any(x[0] == "agg" and x[1] == "tuple" and len(x[3]) == 2 for x in u.params):
        for x in u.params:
            if x[0] == "agg" and text(x[3][0]) == [e[1]]:
                return x[3][1]
        return None
    if isinstance(e[1], int) and e[1] <= len(u.params):
        return u.params[e[1] - 1]
    return None


def touches(s, table):
    """Does a statement work on this table (conservatively)?"""
    if s["k"] == "?":
        return table in s["words"]
    return table in (s.get("table"), s.get("from"), s.get("name")) or ("'%s'" % table) in repr(s.get("where")) + repr(s.get("cols"))


def schema(uses):
    """table -> CREATE TABLE statement"""
    out = {}
    for u in uses:
        for s in u.stmts:
            if s["k"] == "create" and s["obj"] == "TABLE":
                out.setdefault(s["name"], (s, u))
    return out


def insert_cols(s, sch):
    """[(column, value expression)] of an INSERT."""
    cols = s["cols"]
    if cols is None:
        t = sch.get(s["table"])
        cols = t[0]["cols"] if t else None
    if cols is None or s["values"] is None or len(cols) != len(s["values"]):
        return None
    return list(zip(cols, s["values"]))


def exec_of(eng, ev):
    """(statements, parameters) if this call runs SQL whose text is known, else None."""
    if ev.local is not None:
        return None
    n = ev.name
    if n in DIRECT:
        i, j = DIRECT[n]
        ts, ps = text(ev.args[i]), ev.args[j] if j is not None else None
    elif n in STMT:
        ts = []
        for x in eng.origins(ev.args[0]):
            if x[0] in ("r", "o") and eng.sites[x[1]].name in PREP:
                s = eng.sites[x[1]]
                for a in s.args:
                    ts += text(a[PREP[s.name]]) or []
        ts, ps = sorted(set(ts)), ev.args[1] if len(ev.args) > 1 else None
    else:
        return None
    if not ts:
        return None
    return [d for t in ts for d in sql.parse(t)], params(ps)


def run(an, fn, on_exec=None, on_ret=None, on_call=None, on_result=None, on_fact=None, on_item=None, on_end=None,
        budget=400000):
    """Follows one data store method, its SQL executions as events."""
    def call(eng, st, ev):
        if on_call:
            on_call(eng, st, ev)
        if on_exec:
            x = exec_of(eng, ev)
            if x:
                on_exec(eng, st, ev, x[0], x[1])
    e = an.engine(Mon(on_call=call, on_ret=on_ret, on_result=on_result, on_fact=on_fact, on_item=on_item, on_end=on_end,
                      cut=[an.assoc("Key", "as_db_key"), an.assoc("Key", "from_db_key")]), budget=budget)
    outs = e.run(fn.id)
    return e, outs
