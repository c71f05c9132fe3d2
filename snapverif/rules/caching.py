"""C22: the hash cache."""
from .listing import *
from .sqlrules import fits, roles, whereis, showexpr, is_dbkey
from .. import sql, sqluse

CACHEKEY = "snapcd::cache::CacheKey"
TOBYTES = re.compile(r"^(std|core)::(num|int\w*|uint\w*)::to_(le|be|ne)_bytes$|::to_(le|be|ne)_bytes$")
WIDTH = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "u128": 16, "i128": 16, "usize": 8, "isize": 8}
APPEND = re.compile(r"^Extend::extend$|^std::vec::Vec::(extend_from_slice|extend|append)$|^(std::io::)?Write::write(_all)?$")
COPY = re.compile(r"^std::slice::(copy_from_slice|clone_from_slice)$")
VIEW = re.compile(r"(^|::)(iter|into_iter|as_slice|deref|as_ref|borrow|to_vec|into|from|to_owned|clone|into_boxed_slice|as_mut_slice|deref_mut|into_vec|copied|cloned)$")
# where the parts of a file's identity come from
PARTS = {
    "device": r"::(dev|st_dev)$", "inode": r"::(ino|st_ino)$", "mtime": r"::(mtime|st_mtime)$",
    "mtime_nsec": r"::(mtime_nsec|st_mtime_nsec)$", "size": r"::(size|st_size|len)$",
}


SHORTEN = re.compile(r"^std::(vec::Vec|slice)::(truncate|pop|remove|swap_remove|drain|clear|resize|split_off|dedup\w*|retain\w*|insert|swap|fill|reverse|sort\w*)$")


class Bytes:
    """How byte strings are put together from the fields of a value, on a path."""

    def __init__(self, base):
        self.base, self.coll = base, {}

    def holder(self, eng, v):
        while v[0] in ("mut", "conv"):
            v = v[1]
        return v[1] if v[0] in ("r", "o") else v

    def piece(self, eng, x):
        """One number turned into bytes."""
        s = eng.sites[x[1]]
        order = re.search(r"to_(le|be|ne)_bytes$", s.name).group(1)
        m = re.search(r";\s*(\d+)", (s.dty or {}).get("s", ""))
        out = set()
        for a in s.args:
            for y in roots(eng, a[0]):
                if y[0] == "f" and isinstance(y[2], str) and roots(eng, y[1]) & {self.base}:
                    out.add((y[2], order, int(m.group(1)) if m else 8))
                elif any(z[0] in ("r", "o") and name_of(eng, z) in ("next", "acc") for z in eng.origins(y)):
                    return None
                else:
                    out.add(("?", eng.show(y), 0))
        return next(iter(out)) if len(out) == 1 else ("?", eng.show(x), 0)

    def of(self, eng, st, v, d=0):
        """The pieces of a byte string in order, or None."""
        if d > 12:
            return None
        if v[0] == "it":
            if v[1] in ("src", "copied", "cloned"):
                return self.of(eng, st, v[2][0], d + 1)
            if v[1] == "chain":
                out = ()
                for y in v[2]:
                    if y[0] == "c":
                        continue
                    p = self.of(eng, st, y, d + 1)
                    if p is None:
                        return None
                    out += p
                return out
            return None
        xs = strip(eng, v)
        if len(xs) != 1:
            return None
        x = next(iter(xs))
        if x[0] == "v" and x[2:] in ((0, 0), (1, 0)):
            return self.of(eng, st, x[1], d + 1)
        if x[0] == "mut":
            h = self.holder(eng, x)
            got = [t for t in st.mon if t[0] == "bytes" and t[1] == h]
            at = sorted(t[2:] for t in st.mon if t[0] == "at" and t[1] == h)
            if at and not got:
                out, end = (), 0
                for lo, hi, ps in at:
                    if lo != end or ps is None or sum(p[2] for p in ps) != hi - lo:
                        return None
                    out, end = out + ps, hi
                return out
            return got[0][2] if len(got) == 1 and not at else None
        if x[0] == "agg" and x[1] == "array":
            return self.many(eng, st, x[3], d)
        if x[0] in ("r", "o"):
            nm = name_of(eng, x)
            if TOBYTES.search(nm):
                p = self.piece(eng, x)
                return None if p is None else (p,)
            if x[1] in self.coll:
                return self.coll[x[1]]
            args = call_args(eng, x)
            if re.search(r"^std::slice::concat$|Concat::concat$", nm) and len(args) == 1:
                for a in args:
                    for y in strip(eng, a[0]):
                        if y[0] == "agg" and y[1] == "array":
                            return self.many(eng, st, y[3], d)
            if re.search(r"(Vec::(new|with_capacity)|Default::default)$", nm):
                return ()
            if VIEW.search(nm) and len(args) == 1:
                for a in args:
                    return self.of(eng, st, a[0], d + 1)
        return None

    def many(self, eng, st, vs, d):
        out = ()
        for y in vs:
            p = self.of(eng, st, y, d + 1)
            if p is None:
                return None
            out += p
        return out

    def call(self, eng, st, ev):
        if APPEND.search(ev.name) and len(ev.args) > 1:
            h = self.holder(eng, next(iter(strip(eng, ev.args[0]))))
            cur = [t for t in st.mon if t[0] == "bytes" and t[1] == h]
            more = self.of(eng, st, ev.args[1])
            if not cur:
                old = self.of(eng, st, ev.args[0]) if ev.args[0][0] != "mut" else ()
            else:
                old = cur[0][2]
            drop(st, lambda t: t[:2] == ("bytes", h))
            add(st, "bytes", h, None if more is None or old is None or len(old) > 24 else old + more)
        elif SHORTEN.match(ev.name):
            h = self.holder(eng, next(iter(strip(eng, ev.args[0]))))
            for t in [t for t in st.mon if t[:2] == ("bytes", h)]:
                drop(st, lambda x: x == t)
                add(st, "bytes", h, () if ev.name.endswith("::clear") else None if t[2] is None else t[2] + (("?", last(ev.name) + " of what was put together", 0),))
        elif COPY.search(ev.name):
            more = self.of(eng, st, ev.args[1])
            for x in strip(eng, ev.args[0]):
                y = x
                while y[0] == "mut":
                    y = y[1]
                done = False
                if y[0] in ("r", "o") and re.search(r"IndexMut::index_mut$|::get_mut$|Index::index$", name_of(eng, y)):
                    for a in call_args(eng, y):
                        h = self.holder(eng, next(iter(strip(eng, a[0]))))
                        r = a[1]
                        if r[0] == "agg" and r[1].endswith("::Range") and all(z[0] == "c" and z[1] == "int" for z in r[3]):
                            add(st, "at", h, r[3][0][2], r[3][1][2], more)
                            done = True
                        elif r[0] == "agg" and r[1].endswith(("RangeTo", "RangeFrom")) and r[3][0][0] == "c" and more is not None:
                            w = sum(p[2] for p in more)
                            lo = 0 if r[1].endswith("RangeTo") else r[3][0][2]
                            add(st, "at", h, lo, lo + w, more)
                            done = True
                if not done:
                    add(st, "at", self.holder(eng, x), 0, 0, None)
        elif ev.name == "Iterator::collect":
            p = self.of(eng, st, ev.args[0])
            self.coll[ev.sid] = p if self.coll.get(ev.sid, p) == p else None


def composed(an, ck, n, fn, raw, argi, extra=None, on_ret=None):
    """How the identity of a file is put together for one of the raw functions."""
    pi = next((i for i in range(fn.argc) if "CacheKey" in fn.locals[i + 1][0]["s"]), None)
    if pi is None:
        raise CheckError("%s takes no CacheKey" % fn.short)
    base = param(fn, pi)
    B = Bytes(base)
    fields = {f: t for f, t in an.adts[CACHEKEY]["v"][0][1]}
    fwidth = lambda f: WIDTH.get(fields[f]["s"] if isinstance(fields[f], dict) else str(fields[f]), 0)
    got = []

    def on_call(eng, st, ev):
        B.call(eng, st, ev)
        if ev.local is None or ev.local.id != raw.id:
            return
        if extra:
            extra(eng, st, ev)
        at = (ev.span, eng.chain(ev.ctx))
        v = ev.args[argi]
        n.hit("identities composed", ev)
        got.append((B.of(eng, st, v), at, eng.show(v), eng.origins(v), ev))

    def judge(eng):
        if all(x[0] is not None for x in got):
            for ps, at, sh, o, ev in got:
                for p in ps:
                    n.hit("parts of the identity", ev, p)
                for p in ps:
                    if p[0] == "?":
                        ck.bad("part in %s" % fn.short, "%s composes the identity from %s, which is not a field of the file's identity" % (fn.pretty(), p[1]), *at)
                for f in sorted(fields):
                    w = [p for p in ps if p[0] == f]
                    if not w:
                        ck.bad("%s missing in %s" % (f, fn.short), "%s composes the identity without the %s" % (fn.pretty(), f), *at)
                    elif all(p[2] < fwidth(f) for p in w):
                        ck.bad("%s cut in %s" % (f, fn.short), "%s keeps only %d bytes of the %s" % (fn.pretty(), w[0][2], f), *at)
            return
        # put together in a way that is not understood: everything must be in it, and nothing lost on the way
        got[:] = [(None,) + x[1:] for x in got]
        o = set().union(*[x[3] for x in got])
        at = got[0][1]
        named = {x[2] for x in o if x[0] == "f" and roots(eng, x[1]) & {base}}
        if base in o and not named:
            return          # the value as a whole, encoded by something else
        for f in sorted(fields):
            n.hit("parts of the identity", fn.id, f)
            if f not in named:
                ck.bad("%s missing in %s" % (f, fn.short), "%s composes the identity without the %s" % (fn.pretty(), f), *at)
        for x in o:
            if x[0] in ("r", "o") and (name_of(eng, x) == "un:Narrow" or re.search(r"Hasher::finish$", name_of(eng, x))):
                ck.bad("lossy in %s" % fn.short, "%s composes the identity in a way that can make two files the same (%s)" % (fn.pretty(), name_of(eng, x)), *at)

    kf = [an.assoc("Key", "as_db_key"), an.assoc("Key", "from_db_key")]
    e = an.engine(Mon(cut=[raw] + kf, on_call=on_call, on_ret=on_ret))
    ck.absorb(e, e.run(fn.id))
    if got:
        judge(e)
    return got


def C22(an, ck):
    n = Seen()
    get, put = (an.tm("SqliteCache", "Cache", m) for m in ("get", "put"))
    rget, rput = (an.tm("SqliteCache", "Cache", m) for m in ("raw_get", "raw_put"))
    # what is composed, and what is stored and answered
    def on_ret(eng, st, f, ctx, v):
        if not outermost(eng, ctx):
            return
        p = okval(v)
        if p is None:
            return
        if p is False:
            p = mk("v", v, 0, 0)
        if p[0] == "agg" and p[1] == OPTION and p[2] == 0:
            return
        n.hit("answers of the cache", repr(v)[:60])
        for x in roots(eng, p):
            if x == NONE:
                continue
            good = x[0] in ("r", "o") and name_of(eng, x).endswith("Key::from_db_key")
            if good:
                for a in call_args(eng, x):
                    good = good and calls(eng, a[0], r"(^|::)raw_get$") is not None
            if not good:
                ck.bad("answer of %s" % get.short, "%s can answer %s, which is not the key recorded" % (get.pretty(), eng.show(v)), get.span)
    g = composed(an, ck, n, get, rget, 1, None, on_ret)
    vi = next((i for i in range(put.argc) if re.search(r"\bKey\b", put.locals[i + 1][0]["s"])), None)
    if vi is None:
        raise CheckError("%s takes no key" % put.short)

    def value(eng, st, ev):
        k = is_dbkey(eng, ev.args[2])
        if k is None or not k <= {param(put, vi)}:
            ck.bad("value in %s" % put.short, "%s records %s, not the key given" % (put.pretty(), eng.show(ev.args[2])), ev.span, eng.chain(ev.ctx))
    p = composed(an, ck, n, put, rput, 1, value)
    for what, l in (("looks nothing up", g), ("records nothing", p)):
        if not l:
            ck.bad(what, "the cache %s" % what, (get if l is g else put).span)
    for a in g:
        for b in p:
            if a[0] is not None and b[0] is not None and a[0] != b[0]:
                sh = lambda ps: ", ".join("%s (%s, %d bytes)" % x for x in ps)
                ck.bad("composed differently", "the identity is composed of %s when looking up, but of %s when storing" % (sh(a[0]), sh(b[0])), *a[1])
    # the database behind it
    uses, opens, pragmas, trans, bad, engs, _ = sqluse.collect(an, ck)
    sch = sqluse.schema(uses)
    R = roles(an)
    seen = set()
    for u in uses:
        if u.root.id not in (rget.id, rput.id):
            continue
        for s in u.stmts:
            n.hit("statements of the cache", u.text)
            at = whereis(u)
            if u.root.id == rget.id and s["k"] == "select":
                seen.add("get")
                cols = s["cols"]
                if cols and cols[0] != ("col", "value") and ("col", "value") not in cols:
                    ck.bad("column of raw_get", "%r does not read the recorded key" % u.text, *at)
                hit = False
                for x in sql.conj(s["where"]):
                    cp = sql.colparam(x)
                    if cp and cp[1] == "key" and cp[0] in ("=", "is"):
                        hit = True
                        v = sqluse.bound(u, s, ("param", cp[2]))
                        if v is not None and not fits(u.eng, v, R[rget.id][("cache", "key")]):
                            ck.bad("raw_get bound", "the identity looked up is %s" % u.eng.show(v), *at)
                if not hit:
                    ck.bad("raw_get condition", "%r does not look up exactly the identity given" % u.text, *at)
            elif u.root.id == rput.id and s["k"] == "insert":
                seen.add("put")
                cs = dict(sqluse.insert_cols(s, sch) or ())
                for col in ("key", "value"):
                    x = cs.get(col)
                    v = sqluse.bound(u, s, x) if x else None
                    if v is not None and not fits(u.eng, v, R[rput.id][("cache", col)]):
                        ck.bad("raw_put %s" % col, "the %s recorded in the cache is %s" % (col, u.eng.show(v)), *at)
            elif u.root.id == rput.id and s["k"] == "update":
                if not any((sql.colparam(x) or (0, 0))[1] == "key" for x in sql.conj(s["where"])):
                    ck.bad("raw_put update", "%r changes what is recorded for other files" % u.text, *at)
    if "get" not in seen:
        ck.bad("raw_get reads nothing", "%s executes no SELECT that can be read" % rget.pretty(), rget.span)
    hashing(an, ck, n)
    n.into(ck)


def hashing(an, ck, n):
    fn = an.fn("snapcd::dir::hash_fs_item")
    get, put = cachefns(an)
    pi = next((i for i in range(fn.argc) if re.search(r"\bPath(Buf)?\b", fn.locals[i + 1][0]["s"])), None)
    if pi is None:
        raise CheckError("hash_fs_item takes no path")
    path = param(fn, pi)
    fields = [f[0] for f in an.adts[CACHEKEY]["v"][0][1]]
    for f in fields:
        if f not in PARTS and not re.search(r"ctime|mode|uid|gid", f):
            ck.notes.append("a part of the identity the analysis does not know: %s" % f)

    def handle(eng, v, d=0):
        """The open files a reader reads."""
        out = set()
        for x in roots(eng, v, mut=True):
            if d < 10 and x[0] in ("r", "o") and READERS.match(name_of(eng, x)):
                for a in call_args(eng, x):
                    out |= handle(eng, a[-1] if name_of(eng, x).endswith("with_capacity") else a[0], d + 1)
            else:
                out.add(x)
        return out

    def identity(eng, st, v, what, at):
        """{(metadata, open file)} an identity was taken from."""
        out = set()
        xs = roots(eng, v)
        for x in xs:
            if not (x[0] == "agg" and x[1] == CACHEKEY):
                ck.bad("identity %s" % what, "the identity %s is %s, not one made of the file's metadata" % (what, eng.show(v)), *at)
                continue
            for f, y in zip(fields, x[3]):
                if f not in PARTS:
                    continue
                for z in roots(eng, y):
                    if not (z[0] in ("r", "o") and re.search(PARTS[f], name_of(eng, z))):
                        ck.bad("%s of the identity" % f, "the %s of the identity is %s" % (f, eng.show(y)), *at)
                        continue
                    n.hit("parts taken from the metadata", f, what)
                    for a in call_args(eng, z):
                        for m in roots(eng, a[0]):
                            if m[0] in ("r", "o") and name_of(eng, m) == "std::fs::File::metadata":
                                for b in call_args(eng, m):
                                    hs = handle(eng, b[0])
                                    for h in hs:
                                        out.add((m, h))
                                    if not opened(eng, b[0], path):
                                        ck.bad("file identified", "the identity is that of %s, not of the file at the path given" % eng.show(b[0]), *at)
                            elif m[0] in ("r", "o") and re.search(r"^std::fs::(metadata|symlink_metadata)$|::(metadata|symlink_metadata)$", name_of(eng, m)):
                                ck.bad("identity by name", "the identity is taken by name (%s): the file that is read may be another one by then" % name_of(eng, m), *at)
                            else:
                                ck.bad("metadata of the identity", "the identity is taken from %s" % eng.show(m), *at)
        ms = {m for m, h in out}
        if len(ms) > 1:
            ck.notes.append("the identity %s is made from more than one look at the file" % what)
        return out

    def on_result(eng, st, ev, v):
        if ev.name == "std::fs::File::metadata":
            add(st, "look", ev.sid)

    def on_call(eng, st, ev):
        at = (ev.span, eng.chain(ev.ctx))
        if ev.local is None:
            return
        if ev.local.id == get.id:
            n.hit("questions to the cache", ev)
            identity(eng, st, ev.args[1], "looked up", at)
        elif ev.name.endswith("file::put_data") or ev.local.id == an.fn("snapcd::file::put_data").id:
            n.hit("files read", ev)
            for h in handle(eng, ev.args[1]):
                add(st, "read", h[1] if h[0] in ("r", "o") else h)
            for t in [t for t in st.mon if t[0] == "look"]:
                add(st, "before", t[1])
        elif ev.local.id == put.id:
            n.hit("answers recorded", ev)
            hs = identity(eng, st, ev.args[1], "recorded", at)
            for m, h in hs:
                if not has(st, "before", m[1]):
                    ck.bad("identity after the contents", "the identity recorded is taken after the contents were read, so that a change in between goes unnoticed", *at)
            items = stored_item(an, eng, ev.args[2])
            if items is None:
                ck.bad("hash recorded", "the hash recorded in the cache is %s, not the key of the stored item" % eng.show(ev.args[2]), *at)
                return
            for it in items:
                ch = elements(eng, st, eng.proj(it, ("f", an.field(FSITEM, "children"), "children")))
                for c in ch or ():
                    for x in roots(eng, c):
                        if x[0] in ("r", "o") and name_of(eng, x).endswith("put_data"):
                            for a in call_args(eng, x):
                                if hs and not handle(eng, a[1]) & {h for m, h in hs}:
                                    ck.bad("another file", "the hash recorded is that of %s, not of the file that was identified" % eng.show(a[1]), *at)

    def on_fact(eng, st, v, val, eq):
        for x in strip(eng, v[1] if v[0] == "discr" else v):
            if v[0] != "discr":
                # raw_exists said yes
                rx, yes = r"(^|::)raw_exists$", (val == 1) == eq
                while x[0] == "v":
                    x = x[1]
            else:
                # the object could be read
                rx, yes = r"(^|::)(raw_get|get|get_obj)$", (val == 0) == eq
            if yes and x[0] in ("r", "o") and re.search(rx, name_of(eng, x)) and not name_of(eng, x).endswith("Cache::get"):
                for a in call_args(eng, x):
                    for k in is_dbkey(eng, a[1]) or (strip(eng, a[1]) if v[0] == "discr" and len(a) > 1 else ()):
                        for y in roots(eng, k):
                            add(st, "exists", y)

    def on_ret(eng, st, f, ctx, v):
        if not outermost(eng, ctx):
            return
        p = okval(v)
        if p is None:
            return
        for x in roots(eng, mk("v", v, 0, 0) if p is False else p):
            if x[0] in ("r", "o") and re.search(r"(^|::)Cache::get$", name_of(eng, x)):
                n.hit("answers of the cache used", fn.id)
                if not has(st, "exists", x):
                    ck.bad("unknown object", "the cache's answer is used without having made sure that the repository has the object it names", fn.span)

    e = an.engine(Mon(cut=cuts(an) + [fn, get, put, an.ds("raw_exists"), an.assoc("Key", "as_db_key")], on_call=on_call, on_result=on_result, on_fact=on_fact, on_ret=on_ret))
    ck.absorb(e, e.run(fn.id))
    # nothing else asks the cache or records in it
    allowed = an.p.reachable([fn.id]) | {get.id, put.id}
    for f, c, g, sp in calls_in(an, {x.id for x in an.p.fns.values() if x.blocks}):
        if re.search(r"(^|::)Cache::(get|put|raw_get|raw_put)$", c.name) and f.id.split("::{closure")[0] not in {x.split("::{closure")[0] for x in allowed}:
            ck.bad("%s asks the cache" % f.short, "%s uses the cache (%s) around hash_fs_item" % (f.pretty(), c.name), sp)
