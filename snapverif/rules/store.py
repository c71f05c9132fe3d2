"""C05: what is written under which key."""
from ..core import *
from .. import sqluse, sql
from .sqlrules import whereis, fits, select_of, roles

HASH = re.compile(r"^blake3::(hash|Hash::|Hasher::)|^From::|^Into::|^Hash::")
CUTS = re.compile(r"(Index::index|split|truncate|chunks|take|skip|drain|get|first|last|trim|retain|dedup|sort\w*|reverse|resize|pop|remove|insert)$")


def okpay(v):
    """The payload of a successful result, or None."""
    if v[0] == "agg" and v[1] == RESULT:
        return v[3][0] if v[2] == 0 else None
    return False


def root_of(v):
    while v[0] in ("v", "f", "conv", "mut"):
        v = v[1]
    return v


def follow(an, ck, fn, cut, on_call=None, on_ret=None, **k):
    def ret(eng, st, f, ctx, v):
        if eng.ctxs[ctx][0] == 0 and on_ret:
            on_ret(eng, st, f, ctx, v)
    e = an.engine(Mon(cut=cut, on_call=on_call, on_ret=ret, **k))
    o = e.run(fn.id)
    ck.absorb(e, o)
    return e, o


def C05(an, ck):
    p = an.p
    put, get, put_obj, get_obj = (an.ds(x) for x in ("put", "get", "put_obj", "get_obj"))
    raw_put, raw_get = an.ds("raw_put"), an.ds("raw_get")
    hashf = an.ds("hash")
    asdb = an.assoc("Key", "as_db_key")
    n = Seen()

    def dbkey(eng, v):
        """The keys whose database form v is (None: v is something else)."""
        out = set()
        for x in strip(eng, v):
            if x[0] in ("r", "o") and eng.sites[x[1]].name.endswith("Key::as_db_key"):
                for a in eng.sites[x[1]].args:
                    out |= strip(eng, a[0])
            else:
                return None
        return out

    def ishash(eng, k, data, depth=0):
        """None if k is the hash of exactly `data`, else what is wrong."""
        x = strip(eng, k)
        if len(x) != 1:
            return "it is not one value"
        x = next(iter(x))
        if x[0] == "agg" and x[1].endswith("key::Key"):
            x = x[3][0]
        o = eng.origins(x)
        hs = [y for y in o if y[0] in ("r", "o", "mut") and any(eng.sites[i].name.startswith("blake3::") for i in (
            [y[1]] if y[0] != "mut" else eng.muts[y]))]
        if not hs:
            return "it is not the result of a BLAKE3 hash"
        if data not in o:
            return "the bytes hashed are not the bytes given"
        names = eng.origin_calls(x)
        # what is hashed: the whole of the data
        for y in o:
            if y[0] in ("r", "o", "mut"):
                for i in ([y[1]] if y[0] != "mut" else eng.muts[y]):
                    s = eng.sites[i]
                    if s.name in ("blake3::hash", "blake3::Hasher::update", "blake3::Hasher::update_rayon"):
                        for a in s.args:
                            d = a[-1]
                            if strip(eng, d) != {data}:
                                return "%s is hashed" % eng.show(d)
                    elif s.name in ("blake3::keyed_hash", "blake3::derive_key", "blake3::Hasher::new_keyed", "blake3::Hasher::new_derive_key"):
                        return "it is not a plain BLAKE3 hash (%s)" % s.name
        ups = [eng.sites[i] for y in o if y[0] == "mut" for i in eng.muts[y] if eng.sites[i].name == "blake3::Hasher::update"]
        if len({u.sid for u in ups}) > 1:
            return "more than the data is hashed"
        for y in o:
            if y[0] == "mut":
                for i in eng.muts[y]:
                    if not re.search(r"^blake3::|copy_from_slice$|clone_from_slice$|extend_from_slice$|Extend::extend$", eng.sites[i].name or ""):
                        return "the bytes of the hash are changed"
        for c in names:
            if CUTS.search(c) and not c.startswith("blake3::"):
                return "the hash is cut or rearranged (%s)" % c
        return None

    # --- put
    wh = []

    def pc(eng, st, ev):
        if ev.local is not None and ev.local.id == raw_put.id:
            n.hit("objects written by put", ev)
            at = (ev.span, eng.chain(ev.ctx))
            data = param(put, 1)
            if strip(eng, ev.args[2]) != {data}:
                ck.bad("bytes written in put", "the bytes written are %s, not the bytes given" % eng.show(ev.args[2]), *at)
            k = dbkey(eng, ev.args[1])
            if k is None:
                ck.bad("key written in put", "the key written is %s, not the database form of the hash" % eng.show(ev.args[1]), *at)
            else:
                for x in k:
                    w = ishash(eng, x, data)
                    if w:
                        ck.bad("hash in put", "the key an object is stored under is not the hash of its bytes: %s" % w, *at)
                    st.mon = st.mon | {("wrote", x)}

    def pr(eng, st, f, ctx, v):
        x = okpay(v)
        if x is None:
            return
        n.hit("successful ends of put", repr(v))
        w = [t[1] for t in st.mon if t[0] == "wrote"]
        if not w:
            ck.bad("put without write", "put can succeed without storing the object", f.span)
        for y in (strip(eng, x) if x is not False else {v}):
            if w and y not in w:
                ck.bad("key returned by put", "put returns %s, not the key the object was stored under" % eng.show(y), f.span)
    follow(an, ck, put, [raw_put, asdb], pc, pr)
    # --- get
    def gc(eng, st, ev):
        if ev.local is not None and ev.local.id == raw_get.id:
            n.hit("lookups by get", ev)
            k = dbkey(eng, ev.args[1])
            if k is None or k != {param(get, 1)}:
                ck.bad("key looked up by get", "get looks up %s, not the database form of the key given" % eng.show(ev.args[1]), ev.span, eng.chain(ev.ctx))

    def gr(eng, st, f, ctx, v):
        x = okpay(v)
        if x is None:
            return
        n.hit("successful ends of get", repr(v))
        for y in (strip(eng, x) if x is not False else strip(eng, v)):
            r = y
            while r[0] in ("v", "f", "conv"):
                r = r[1]
            if not (r[0] in ("r", "o") and eng.sites[r[1]].name.endswith("::raw_get")):
                ck.bad("bytes returned by get", "get returns %s, not the bytes stored" % eng.show(y), f.span)
    follow(an, ck, get, [raw_get, asdb], gc, gr)

    # --- get_obj / put_obj
    def isfrom(eng, v, names, arg):
        """v is the payload of a call of one of names whose last argument is arg."""
        for y in strip(eng, v):
            r = y
            while r[0] in ("v", "f", "conv"):
                r = r[1]
            if not (r[0] in ("r", "o") and names.search(eng.sites[r[1]].name)):
                return False
            for a in eng.sites[r[1]].args:
                if arg is not None and not arg(a):
                    return False
        return True
    DEC = re.compile(r"^serde_cbor::(de::)?(from_slice|from_reader)$")
    ENC = re.compile(r"^serde_cbor::(ser::)?(to_vec|to_writer)$")

    def oc(eng, st, ev):
        if ev.local is not None and ev.local.id == get.id:
            n.hit("object lookups", ev)
            if strip(eng, ev.args[1]) != {param(get_obj, 1)}:
                ck.bad("key looked up by get_obj", "get_obj looks up %s" % eng.show(ev.args[1]), ev.span)
        if ev.local is not None and ev.local.id == put.id:
            n.hit("object encodings", ev)
            st.mon = st.mon | {("put",)}
            if not isfrom(eng, ev.args[1], ENC, lambda a: any(strip(eng, x) == {param(put_obj, 1)} for x in a)) and ENC.search(" ".join(
                    eng.origin_calls(ev.args[1]))) is None and not any(ENC.search(c) for c in eng.origin_calls(ev.args[1])):
                ck.bad("bytes stored by put_obj", "put_obj stores %s, not the encoding of the object given" % eng.show(ev.args[1]), ev.span)
            elif isfrom(eng, ev.args[1], re.compile("to_vec$"), None) is False and root_of(ev.args[1])[0] not in ("r", "o"):
                pass

    def gor(eng, st, f, ctx, v):
        x = okpay(v)
        if x is None:
            return
        n.hit("successful ends of get_obj", repr(v))
        y = x if x is not False else v
        if not isfrom(eng, y, DEC, lambda a: any(isfrom(eng, z, re.compile(r"::get$"), None) for z in a)):
            ck.bad("object returned by get_obj", "get_obj returns %s, not the decoded bytes stored under the key" % eng.show(y), f.span)

    def por(eng, st, f, ctx, v):
        x = okpay(v)
        if x is None:
            return
        n.hit("successful ends of put_obj", repr(v))
        y = x if x is not False else v
        if not isfrom(eng, y, re.compile(r"::put$"), None):
            ck.bad("key returned by put_obj", "put_obj returns %s, not the key the object was stored under" % eng.show(y), f.span)
    follow(an, ck, get_obj, [get], oc, gor)
    follow(an, ck, put_obj, [put], oc, por)
    # --- who may write
    cg = p.callgraph()
    for f in an.local_roots():
        for c, g, sp in cg[f.id][0]:
            if c.tm == ("DataStore", "raw_put") or (g is not None and g.id == raw_put.id):
                n.hit("calls of raw_put", f.id, sp)
                if not only_from(an, f, put):
                    ck.bad("raw_put called by %s" % f.short, "%s writes an object under a key of its own choosing" % f.pretty(), sp, [f.id])
    # --- the statements
    uses, opens, pragmas, trans, bad, engs, nn = sqluse.collect(an, ck)
    sch = sqluse.schema(uses)
    R = roles(an)
    for u in uses:
        for s in u.stmts:
            if s["k"] == "insert" and s["table"] == "data":
                n.hit("statements that write objects", u.text)
                if u.root.id != raw_put.id:
                    ck.bad("insert into data in %s" % u.root.short, "%s writes objects as well: %r" % (u.root.pretty(), u.text), *whereis(u))
                    continue
                cs = dict(sqluse.insert_cols(s, sch) or ())
                for col in ("key", "value"):
                    e = cs.get(col)
                    v = sqluse.bound(u, s, e) if e else None
                    if cs and (e is None or e[0] != "param" or (v is not None and not fits(u.eng, v, R[raw_put.id][("data", col)]))):
                        ck.bad("%s stored by raw_put" % col, "raw_put stores %s as the %s" % (u.eng.show(v) if v is not None else "something else", col), *whereis(u))
    wrote = []

    def on_exec(eng, st, ev, stmts, ps):
        if any(s["k"] == "insert" and s["table"] == "data" for s in stmts):
            add(st, "wrote")

    def on_ret(eng, st, f, ctx, v):
        if eng.ctxs[ctx][0] == 0 and okpay(v) is not None:
            n.hit("successful ends of raw_put", repr(v))
            if not has(st, "wrote"):
                ck.bad("raw_put without insert", "raw_put can succeed without writing anything", f.span)
    e, outs = sqluse.run(an, raw_put, on_exec, on_ret)
    ck.absorb(e, outs)
    # --- reading it back
    sel = select_of(an, ck, raw_get, uses)
    if not sel:
        ck.bad("raw_get reads nothing", "raw_get executes no SELECT that can be read", raw_get.span)
    cols = None
    for u, s in sel:
        n.hit("statements that read objects", u.text)
        conds = [sql.colparam(x) for x in sql.conj(s["where"])]
        if s["from"] != "data" or len(conds) != 1 or conds[0] is None or conds[0][:2] not in (("=", "key"), ("is", "key")):
            ck.bad("raw_get condition", "%r does not look up exactly the key given" % u.text, *whereis(u))
        else:
            v = sqluse.bound(u, s, ("param", conds[0][2]))
            if v is not None and not fits(u.eng, v, R[raw_get.id][("data", "key")]):
                ck.bad("raw_get bound", "raw_get looks up %s" % u.eng.show(v), *whereis(u))
        cols = s["cols"]

    def rr(eng, st, f, ctx, v):
        if eng.ctxs[ctx][0] != 0:
            return
        x = okpay(v)
        if x is None:
            return
        n.hit("successful ends of raw_get", repr(v))
        for y in strip(eng, x if x is not False else v):
            if y[0] == "mut" or not (root_of(y)[0] in ("r", "o") and eng.sites[root_of(y)[1]].name.startswith("rusqlite::")):
                ck.bad("bytes returned by raw_get", "raw_get returns %s, not the bytes stored" % eng.show(y), f.span)
                continue
            for z in eng.origins(y):
                if z[0] in ("r", "o") and eng.sites[z[1]].name in ("rusqlite::Row::get", "rusqlite::row::Row::get", "rusqlite::Row::get_unwrap"):
                    for a in eng.sites[z[1]].args:
                        i = a[1]
                        if i[0] == "c" and i[1] == "int" and cols and (i[2] >= len(cols) or cols[i[2]] not in (("col", "value"), ("*",))):
                            ck.bad("column returned by raw_get", "raw_get returns column %d of the result, which is not the value" % i[2], f.span)
    e, outs = sqluse.run(an, raw_get, None, rr)
    ck.absorb(e, outs)
    n.into(ck)


def only_from(an, f, root, seen=()):
    """f is root, a closure in it, or a helper that only root uses."""
    if f.id == root.id or root.id in parents(an, f):
        return True
    if f.id in seen:
        return True
    cg = an.p.callgraph()
    callers = [g for g in an.local_roots() if f.id in cg[g.id][1]]
    callers += [g for x in parents(an, f) for g in [an.p.fn(x)] if g]
    return bool(callers) and all(only_from(an, g, root, seen + (f.id,)) for g in callers)


def parents(an, f):
    """The functions a closure lies in."""
    out, x = set(), f.id
    while "::{closure" in x:
        x = x.rsplit("::{closure", 1)[0]
        out.add(x)
    return out
