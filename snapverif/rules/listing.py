"""C20 and C23: what is recorded for directories and files."""
from .fsrules import *
from .codec import FSITEM, ITEMTYPE

HASHED = re.compile(r"\b(HashMap|HashSet|BinaryHeap)<")
BTREE = re.compile(r"\b(BTreeMap|BTreeSet)<")
SORT = re.compile(r"^std::(slice|vec::Vec)::(sort\w*)$")
# conversions that keep different names different
SAME = re.compile(
    r"^std::(path::Path|path::PathBuf|ffi::OsStr|ffi::OsString|os_str::\w+|string::String|str|borrow::Cow|vec::Vec|slice)::"
    r"(as_os_str|as_path|as_encoded_bytes|into_encoded_bytes|to_owned|to_os_string|to_path_buf|into_os_string|into_boxed_path|as_ref|deref|"
    r"clone|new|from|into_vec|as_bytes|to_vec|into_owned|as_slice)$|"
    r"^OsStr(ing)?Ext::(as_bytes|into_vec)$|^std::os::unix::ffi::OsStr(ing)?Ext::\w+$|^(Clone|Into|From|AsRef|Borrow|Deref|ToOwned)::\w+$|"
    r"^std::clone::Clone::clone$")


def named(eng, v, want, d=0):
    """Is v the name (or path) of an element `want` accepts, converted without loss?"""
    if d > 12:
        return False
    xs = roots(eng, v)
    if not xs:
        return False
    for x in xs:
        if want(eng, x):
            continue
        if x[0] == "agg" and x[1] in ("tuple", "core::cmp::Reverse") and x[3] and all(named(eng, y, want, d + 1) for y in x[3]):
            continue
        if x[0] in ("r", "o"):
            nm = name_of(eng, x)
            if re.search(r"DirEntry::(file_name|path)$|^std::path::(Path|PathBuf)::file_name$", nm) or SAME.match(nm):
                if all(a and named(eng, a[0], want, d + 1) for a in call_args(eng, x)):
                    continue
        return False
    return True


def sortfn(an, eng, ev, shapes):
    """Does a sorting call order by name only?  True, False or None (unknown)."""
    m = last(ev.name)
    clo = None
    for a in ev.args[1:]:
        if a[0] == "clo":
            clo = an.p.fn(a[1])
        elif a[0] == "c" and a[1] == "fn":
            nm = eng.prog.callee(eng.fninfo(a)).name
            if re.search(r"DirEntry::(file_name|path)$", nm):
                return True
            if re.search(r"^Ord::cmp$|^PartialOrd::", nm):
                m = "sort"
            else:
                clo = an.p.fn(eng.prog.callee(eng.fninfo(a)).id)
    if m in ("sort", "sort_unstable"):
        # names, paths, or tuples that start with one
        return all(s in ("name", "path") or (isinstance(s, tuple) and s[1] in ("name", "path")) for s in shapes) if shapes else None
    if clo is None:
        return None
    out = []
    off = 1 if clo.id.split("::")[-1].startswith("{closure") else 0

    def item(i):
        p = mk("p", clo.id, i + off)

        def want(e2, x):
            if x == p:
                return all(s in ("name", "path") for s in shapes) and bool(shapes)
            if x[0] == "f" and x[1] == p and isinstance(x[2], (int, str)):
                k = int(x[2]) if str(x[2]).isdigit() else None
                return k is not None and all(isinstance(s, tuple) and len(s) > k + 1 and s[k + 1] in ("name", "path") for s in shapes)
            return False

        def entry(e2, x):
            return want(e2, x) or x[0] in ("r", "o") and re.search(r"DirEntry::(file_name|path)$", name_of(e2, x)) and all(
                p in roots(e2, a[0]) or any(y[0] == "f" and y[1] == p for y in roots(e2, a[0])) for a in call_args(e2, x))
        return entry

    def on_ret(e2, st, f, ctx, v):
        if not outermost(e2, ctx):
            return
        if "key" in m:
            out.append(named(e2, v, item(0)))
            return
        # comparisons
        good = True
        cmps = [x for x in e2.origins(v) if x[0] in ("r", "o") and re.search(r"^(Ord|PartialOrd|std::cmp::\w+)::(cmp|partial_cmp)$", name_of(e2, x))]
        for x in cmps:
            for a in call_args(e2, x):
                ab = named(e2, a[0], item(0)) and named(e2, a[1], item(1))
                ba = named(e2, a[0], item(1)) and named(e2, a[1], item(0))
                good = good and (ab or ba)
        out.append(bool(cmps) and good)
    e2 = an.engine(Mon(on_ret=on_ret))
    e2.run(clo.id)
    return bool(out) and all(out)


def retains(an, eng, ev):
    """Does the closure given to retain only answer no where the filter does?"""
    for a in ev.args[1:]:
        if a[0] != "clo":
            return True
        f = an.p.fn(a[1])
        out = []

        def said(e2, v):
            return v[0] in ("r", "o") and name_of(e2, v) == "?dyn"

        def on_fact(e2, st, v, val, eq):
            for x in strip(e2, v):
                if said(e2, x) and (val == 0) == eq:
                    add(st, "no")

        def on_ret(e2, st, f, ctx, v):
            if not outermost(e2, ctx):
                return
            for x in strip(e2, v):
                out.append(has(st, "no") or said(e2, x) or x[0] == "c" and x[2] != 0)
        e2 = an.engine(Mon(on_fact=on_fact, on_ret=on_ret))
        e2.run(f.id)
        return all(out)
    return True


class Rows:
    """What the lists of a function hold, in terms of the directory entries."""

    def __init__(self, an, ck, n, fn, rec):
        self.an, self.ck, self.n, self.fn, self.rec = an, ck, n, fn, rec
        self.seeds, self.newseeds = set(), set()
        self.held, self.newheld = {}, {}        # what a list holds on any path
        self.path = next((i for i in range(fn.argc) if re.search(r"\bPath(Buf)?\b", fn.locals[i + 1][0]["s"])), None)
        self.flt = filterparam(fn)
        if self.path is None or self.flt is None:
            raise CheckError("%s has no path or no filter" % fn.short)
        self.p = param(fn, self.path)

    # -- where things are kept
    def holder(self, eng, v):
        while True:
            if v[0] in ("mut", "conv"):
                v = v[1]
                continue
            xs = roots(eng, v)
            if len(xs) == 1:
                x = next(iter(xs))
                if x != v:
                    v = x
                    continue
            break
        if v[0] in ("r", "o"):
            nm = name_of(eng, v)
            if re.search(r"::(iter|into_iter|as_slice|into_boxed_slice|iter_mut|drain|by_ref|as_mut_slice|deref_mut|deref|into_vec)$", nm):
                for a in call_args(eng, v):
                    return self.holder(eng, a[0])
            return v[1]
        if v[0] == "f" and v[1][0] in ("r", "o"):
            return (v[1][1], v[2])
        if v[0] == "it" and v[1] == "src":
            return self.holder(eng, v[2][0])
        return v

    def source(self, eng, base):
        """('dir', None), (holder, projection) for the base of an iterator."""
        for x in roots(eng, base):
            if x[0] in ("r", "o") and name_of(eng, x) == "std::fs::read_dir":
                return ("dir", None)
            if x[0] in ("r", "o") and re.search(r"Map::(values|into_values|keys|into_keys)$", name_of(eng, x)):
                for a in call_args(eng, x):
                    return (self.holder(eng, a[0]), 2 if "values" in name_of(eng, x) else 1)
        return (self.holder(eng, base), None)

    def at(self, eng, h):
        if isinstance(h, int):
            return place(eng, h)
        if isinstance(h, tuple) and len(h) == 2 and isinstance(h[0], int):
            return (place(eng, h[0]), h[1])
        return None

    def shapes(self, eng, st, h):
        return {t[2] for t in st.mon if t[0] == "has" and t[1] == h} | self.held.get(self.at(eng, h), set())

    def holds(self, eng, st, h, s):
        add(st, "has", h, s)
        if self.at(eng, h) is not None:
            self.newheld.setdefault(self.at(eng, h), set()).add(s)

    # -- what a value is of which entry
    def aspects(self, eng, st, v, d=0):
        out = set()
        if d > 10:
            return out
        for x in roots(eng, v):
            if x[0] in ("r", "o"):
                nm = name_of(eng, x)
                if nm == "next":
                    for a in call_args(eng, x):
                        h, pr = self.source(eng, a[0])
                        if h == "dir":
                            out.add(("entry", x))
                        for s in self.shapes(eng, st, h):
                            if pr is None:
                                out.add((s, x))
                            elif isinstance(s, tuple):
                                out.add((s[pr], x))
                    continue
                for a in call_args(eng, x):
                    if not a:
                        continue
                    if re.search(r"DirEntry::file_name$", nm):
                        out |= {("name", e) for s, e in self.aspects(eng, st, a[0], d + 1) if s == "entry"}
                    elif re.search(r"^std::path::(Path|PathBuf)::file_name$", nm):
                        out |= {("name", e) for s, e in self.aspects(eng, st, a[0], d + 1) if s == "path"}
                    elif re.search(r"DirEntry::path$", nm):
                        out |= {("path", e) for s, e in self.aspects(eng, st, a[0], d + 1) if s == "entry"}
                    elif re.search(r"^std::path::(Path|PathBuf)::join$", nm):
                        if self.p in roots(eng, a[0]):
                            for s, e in self.aspects(eng, st, a[1], d + 1):
                                if s == "name":
                                    out.add(("path", e))
                                    self.seed(eng, e)
                    elif SAME.match(nm):
                        out |= self.aspects(eng, st, a[0], d + 1)
                    elif self.isrec(eng, x):
                        if len(a) > self.path:
                            out |= {("key", e) for s, e in self.aspects(eng, st, a[self.path], d + 1) if s == "path"}
            elif x[0] == "mut":
                ms = [eng.sites[s] for s in eng.muts[x]]
                if ms and all(s.name.endswith("PathBuf::push") for s in ms) and len(ms) == 1 and self.p in roots(eng, x[1]):
                    for a in ms[0].args:
                        for s, e in self.aspects(eng, st, a[1], d + 1):
                            if s == "name":
                                out.add(("path", e))
                                self.seed(eng, e)
            elif x[0] == "f" and str(x[2]).isdigit():
                for s, e in self.aspects(eng, st, x[1], d + 1):
                    if isinstance(s, tuple) and len(s) > int(x[2]) + 1:
                        out.add((s[int(x[2]) + 1], e))
            elif x[0] == "agg" and x[1] == "tuple":
                parts = [self.aspects(eng, st, y, d + 1) for y in x[3]]
                for e in {e for p in parts for s, e in p}:
                    out.add((("tup",) + tuple(next((s for s, e2 in sorted(p, key=repr) if e2 == e), "?") for p in parts), e))
        return {(s, e) for s, e in out if s != "?"}

    def seed(self, eng, e):
        """A list of names that the entries are found by again."""
        for a in call_args(eng, e):
            h, pr = self.source(eng, a[0])
            if isinstance(h, int):
                self.newseeds.add(place(eng, h))

    def isrec(self, eng, x):
        s = eng.sites[x[1]]
        return s.callee is not None and getattr(s.callee, "id", None) == self.rec.id

    def comps(self, eng, s, h):
        if isinstance(s, tuple):
            return set().union(*[self.comps(eng, y, h) for y in s[1:]])
        if s in ("entry", "path"):
            return {"key", "name"}
        if s == "name" and isinstance(h, int) and place(eng, h) in self.seeds:
            return {"key", "name"}
        return {s} & {"key", "name"}

    # -- events
    def bad(self, key, msg, at):
        self.ck.bad(key, msg, *at)

    def put(self, eng, st, h, v, at, ty="", shape=None):
        """v is put into the list h."""
        asp = self.aspects(eng, st, v) if shape is None else shape
        if not asp:
            if any(x[0] in ("r", "o") and name_of(eng, x) == "next" and self.aspects(eng, st, x) for x in eng.origins(v)):
                self.holds(eng, st, h, "?")
                add(st, "what", h, v)
                self.n.hit("entries put into lists", *at[:1])
            return
        self.n.hit("entries put into lists", *at[:1])
        for s, e in asp:
            self.holds(eng, st, h, s)
            for c in self.comps(eng, s, h):
                if has(st, "got", e, c, h) and not isinstance(s, tuple):
                    self.bad("%s recorded twice" % c, "the %s of an entry can be recorded twice" % c, at)
                add(st, "got", e, c, h)
            if not has(st, "ord", e) and not (BTREE.search(ty) and (s in ("name", "path") or isinstance(s, tuple) and s[1] in ("name", "path"))):
                add(st, "unord", h)
            if HASHED.search(ty):
                add(st, "unord", h)

    def call(self, eng, st, ev):
        at = (ev.span, eng.chain(ev.ctx))
        if ev.name == "std::fs::read_dir":
            self.n.hit("directories listed", ev)
            if self.p not in roots(eng, ev.args[0]):
                self.bad("directory listed", "%s lists %s, not the directory given" % (self.fn.pretty(), eng.show(ev.args[0])), at)
        if PUSH.match(ev.name) and len(ev.args) > 1 and not re.search(r"::(extend|extend_from_slice|append)$", ev.name):
            ty = ev.argtys[0]["s"] if ev.argtys else ""
            h = self.holder(eng, ev.args[0])
            if re.search(r"Map::insert$", ev.name) and len(ev.args) > 2:
                asp = self.aspects(eng, st, mk("agg", "tuple", 0, (ev.args[1], ev.args[2])))
                self.put(eng, st, h, ev.args[2], at, ty, asp)
            else:
                self.put(eng, st, h, ev.args[-1], at, ty)
                if ev.name.endswith("Vec::insert"):
                    add(st, "unord", h)
        elif re.search(r"Vec::append$", ev.name):
            h, g = self.holder(eng, ev.args[0]), self.holder(eng, ev.args[1])
            for s in self.shapes(eng, st, g):
                self.holds(eng, st, h, s)
            if has(st, "unord", g):
                add(st, "unord", h)
        if SORT.match(ev.name) or re.search(r"::(reverse|rotate_left|rotate_right|swap)$", ev.name) and ev.name.startswith(("std::slice", "std::vec")):
            h = self.holder(eng, ev.args[0])
            sh = self.shapes(eng, st, h)
            if sh:
                self.n.hit("sorted lists of entries", ev)
                r = sortfn(self.an, eng, ev, sh) if SORT.match(ev.name) else False
                alone = all(len(self.comps(eng, s, h)) == 1 for s in sh)
                if alone and r is not None:
                    self.bad("%s alone" % last(ev.name), "%s rearranges the %s without what belongs to them" % (ev.name, "/".join(sorted(map(str, sh)))), at)
                elif r:
                    drop(st, lambda t: t[:2] == ("unord", h))
                elif SORT.match(ev.name):
                    add(st, "unord", h)
        if LOSSY.match(ev.name) and not ev.name.startswith("Iterator::filter"):
            for a in ev.args[:1]:
                h = self.holder(eng, a)
                src, _ = self.source(eng, a[2][0] if a[0] == "it" and a[2] else a)
                if (self.shapes(eng, st, h) or src == "dir" or self.shapes(eng, st, src)) and not ev.name.endswith("::retain"):
                    self.bad("%s of the entries" % last(ev.name), "%s drops entries (%s)" % (self.fn.pretty(), ev.name), at)
        if re.search(r"::retain(_mut)?$", ev.name):
            h = self.holder(eng, ev.args[0])
            if self.shapes(eng, st, h):
                self.n.hit("entries retained", ev)
                if not retains(self.an, eng, ev):
                    self.bad("retain of the entries", "%s drops entries that the filter admits (%s)" % (self.fn.pretty(), ev.name), at)
        if REORDER.match(ev.name) and ev.name.startswith(("Iterator", "DoubleEnded")):
            b = ev.args[0]
            while b[0] == "it" and b[1] != "src":
                b = b[2][0]
            h, _ = self.source(eng, b[2][0] if b[0] == "it" else b)
            sh = self.shapes(eng, st, h) if h != "dir" else ()
            if sh and all(len(self.comps(eng, s, h)) == 1 for s in sh):
                self.bad("%s alone" % last(ev.name), "%s rearranges the %s without what belongs to them" % (ev.name, "/".join(sorted(map(str, sh)))), at)

    def kept(self, eng, st, site, v):
        at = (site.span, ())
        if site.name.endswith(("unzip", "partition")):
            for s, e in self.aspects(eng, st, v):
                if isinstance(s, tuple) and site.name.endswith("unzip"):
                    for i, y in enumerate(s[1:]):
                        self.put(eng, st, (site.sid, i), v, at, "", {(y, e)} if y != "?" else set())
            return
        h = site.sid
        ty = (site.dty or {}).get("s", "") if hasattr(site, "dty") else ""
        if site.name.endswith("extend"):
            for a in site.args:
                if len(a) > 1:
                    h = self.holder(eng, a[0])
        self.put(eng, st, h, v, at, ty)

    def settle(self, eng, st, k, at):
        for t in list(st.mon):
            if t[0] == "excluded" and (k is None or t[1] == k):
                got = {g[2] for g in st.mon if g[0] == "got" and g[1] == t[2]}
                if got and got != t[3]:
                    self.bad("%s of an excluded entry" % "/".join(sorted(got)), "%s can record the %s of an entry that the filter excludes, without its %s" % (
                        self.fn.pretty(), "/".join(sorted(got)), "/".join(sorted(t[3] - got))), at)
            if t[0] == "pend" and (k is None or t[1] == k):
                got = {g[2] for g in st.mon if g[0] == "got" and g[1] == t[2]}
                miss = t[3] - got
                if miss == t[3]:
                    self.bad("entry skipped", "%s can go on without having recorded an entry that the filter admits" % self.fn.pretty(), at)
                elif miss:
                    self.bad("%s missing" % "/".join(sorted(miss)), "%s can record the %s of an entry without its %s" % (
                        self.fn.pretty(), "/".join(sorted(got)), "/".join(sorted(miss))), at)

    def item(self, eng, st, ev, it, v):
        h, pr = self.source(eng, it[2][0])
        sh = {"entry"} if h == "dir" else self.shapes(eng, st, h)
        if not sh:
            return
        at = (ev.span, eng.chain(ev.ctx))
        self.n.hit("entries taken from their list", ev)
        self.settle(eng, st, h, at)
        drop(st, lambda t: t[0] in ("pend", "open", "excluded") and t[1] == h or t[0] == "got" and (t[1] == v or t[1][0] == "o" and t[1][1] == v[1]) or t[0] == "ord" and t[1] == v)
        req = set()
        for s in sh:
            req |= self.comps(eng, s if pr is None or not isinstance(s, tuple) else s[pr], h)
        add(st, "pend", h, v, frozenset(req))
        add(st, "open", h)
        if h != "dir" and not has(st, "unord", h):
            add(st, "ord", v)

    def end(self, eng, st, ev, it):
        h, pr = self.source(eng, it[2][0])
        if h != "dir" and not self.shapes(eng, st, h) and not has(st, "open", h):
            return
        self.settle(eng, st, h, (ev.span, eng.chain(ev.ctx)))
        drop(st, lambda t: t[0] in ("pend", "open", "excluded") and t[1] == h)
        add(st, "ended", h)

    def fact(self, eng, st, v, val, eq):
        if v[0] in ("r", "o") and EMPTY.match(name_of(eng, v)) and (val == 1) == eq:
            for a in call_args(eng, v):
                h = self.holder(eng, a[0])
                if any(t[:2] == ("has", h) for t in st.mon):
                    add(st, "never")
        for x in strip(eng, v):
            if x[0] in ("r", "o") and name_of(eng, x) == "?dyn" and (val == 0) == eq:
                for a in call_args(eng, x):
                    if len(a) > 1 and param(self.fn, self.flt) in strip(eng, a[0]):
                        self.n.hit("entries the filter excludes", x[1])
                        es = {e for s, e in self.aspects(eng, st, a[1]) if s == "entry"}
                        for t in [t for t in st.mon if t[0] == "pend" and t[2] in es]:
                            drop(st, lambda x: x == t)
                            add(st, "excluded", t[1], t[2], t[3])

    def directory(self, eng, st, item, at):
        """The item recorded for a directory."""
        n = self.n
        n.hit("directories recorded", *at[:1])
        if has(st, "never"):        # a list found empty after something was put into it
            return
        if not has(st, "ended", "dir"):
            self.bad("directory not listed", "%s can record a directory without having listed all of it" % self.fn.pretty(), at)
        self.settle(eng, st, None, at)
        for t in st.mon:
            if t[0] == "open":
                self.bad("early end", "%s can record a directory before it has seen all of its entries" % self.fn.pretty(), at)
        some = any(t[0] == "has" and t[2] not in ("entry", "path") and not (isinstance(t[1], int) and place(eng, t[1]) in self.seeds) for t in st.mon)
        for fld, want in (("children", "key"), ("children_names", "name")):
            v = eng.proj(item, ("f", self.an.field(FSITEM, fld), fld))
            h = self.holder(eng, v)
            sh = self.shapes(eng, st, h)
            n.hit("lists recorded", *at[:1], fld)
            for s in sorted(sh - {want}, key=repr):
                w = [t[2] for t in st.mon if t[0] == "what" and t[1] == h]
                self.bad("%s recorded" % fld, "the %s recorded for a directory are %s, not the %s" % (
                    fld, eng.show(w[0]) if s == "?" and w else "entries" if s == "entry" else "paths" if s == "path" else s,
                    "names of its entries" if want == "name" else "keys of its entries' contents"), at)
            if some and not sh:
                self.bad("%s lost" % fld, "the %s recorded for a directory are %s, not those of its entries" % (fld, eng.show(v)), at)
            if has(st, "unord", h):
                self.bad("%s unordered" % fld, "the %s of a directory are recorded in the order the file system lists them, not in an order of their names" % fld, at)
        size = eng.proj(item, ("f", self.an.field(FSITEM, "size"), "size"))
        for x in eng.origins(size):
            if x[0] in ("r", "o") and re.search(r"::(metadata|symlink_metadata)$|Metadata(Ext)?::", name_of(eng, x)):
                self.bad("size of a directory", "the size recorded for a directory comes from the file system (%s)" % name_of(eng, x), at)
                break


def stored_item(an, eng, v):
    """The FSItem whose stored object the key v is of: terms, or None."""
    encs = {f.id for f in an.encoders("FSItem")}
    out = set()
    for x in roots(eng, v):
        if not (x[0] in ("r", "o") and re.search(r"(^|::)put_obj$", name_of(eng, x))):
            return None
        for a in call_args(eng, x):
            for y in roots(eng, a[-1]):
                s = eng.sites[y[1]] if y[0] in ("r", "o") else None
                if s is None or not (getattr(s.callee, "id", None) in encs or re.search(r"(^|::)(try_into|try_from)$", s.name)):
                    return None
                for b in s.args:
                    out |= roots(eng, b[0])
    return out or None


def kind_of(an, eng, item):
    v = eng.proj(item, ("f", an.field(FSITEM, "itemtype"), "itemtype"))
    ks = {an.adts[ITEMTYPE]["v"][x[2]][0] if x[0] == "agg" and x[1] == ITEMTYPE else "?" for x in strip(eng, v)}
    return ks


def C20(an, ck):
    n = Seen()
    top = an.fn("snapcd::dir::put_fs_item")
    fn = an.recursive(top)
    seeds, held, second = set(), {}, False
    for _ in range(8):
        c = ck if second else Ck("first")
        nn = n if second else Seen()
        rows = Rows(an, c, nn, fn, fn)
        rows.seeds, rows.held = seeds, held
        got = []

        def on_ret(eng, st, f, ctx, v):
            if not outermost(eng, ctx):
                return
            p = okval(v)
            if p is None:
                return
            items = None if p is False else stored_item(an, eng, p)
            if p is False:
                items = stored_item(an, eng, mk("v", v, 0, 0))
            nn.hit("successful returns", repr(v)[:60])
            if items is None:
                c.bad("key returned", "%s can return %s, which is not the key of the stored item" % (fn.pretty(), eng.show(v)), fn.span)
                return
            for it in items:
                if kind_of(an, eng, it) != {"File"}:
                    got.append(it)
                    rows.directory(eng, st, it, (fn.span, ()))

        m = Mon(cut=cuts(an) + [fn], on_call=rows.call, on_item=rows.item, on_end=rows.end, on_fact=rows.fact, on_ret=on_ret)
        m.kept = rows.kept
        e = an.engine(m)
        o = e.run(fn.id)
        if second:
            ck.absorb(e, o)
            if not got:
                ck.bad("no directory recorded", "%s never records a directory" % fn.pretty(), fn.span)
            break
        second = (rows.newseeds, rows.newheld) == (seeds, held)
        seeds, held = rows.newseeds, rows.newheld
    else:
        raise CheckError("the lists of %s do not settle" % fn.short)
    wrapper(an, ck, n, top, fn)
    n.into(ck)


def wrapper(an, ck, n, top, fn):
    """A public function that only hands on to the recursive one."""
    if top.id == fn.id:
        return
    path = next(i for i in range(top.argc) if re.search(r"\bPath(Buf)?\b", top.locals[i + 1][0]["s"]))
    fpath = next(i for i in range(fn.argc) if re.search(r"\bPath(Buf)?\b", fn.locals[i + 1][0]["s"]))

    def on_ret(eng, st, f, ctx, v):
        if not outermost(eng, ctx) or okval(v) is None:
            return
        n.hit("returns of the public function", repr(v)[:60])
        for x in roots(eng, v):
            if not (x[0] in ("r", "o") and getattr(eng.sites[x[1]].callee, "id", None) == fn.id):
                ck.bad("result of %s" % top.short, "%s returns %s" % (top.pretty(), eng.show(v)), top.span)
                continue
            for a in call_args(eng, x):
                if param(top, path) not in roots(eng, a[fpath]):
                    ck.bad("path of %s" % top.short, "%s archives %s, not the path given" % (top.pretty(), eng.show(a[fpath])), top.span)
    e = an.engine(Mon(cut=[fn], on_ret=on_ret))
    ck.absorb(e, e.run(top.id))


# ------------------------------------------------------------------- C23
READERS = re.compile(r"^std::io::BufReader::(new|with_capacity)$|^std::fs::File::(try_clone|by_ref)$|^Read::by_ref$|^std::boxed::Box::new$|^std::io::(BufRead|Read)::by_ref$")


def opened(eng, v, path, d=0):
    """Is v a reader of the whole file at `path`?"""
    if d > 10:
        return False
    xs = roots(eng, v, mut=True)
    if not xs:
        return False
    for x in xs:
        if x[0] in ("r", "o"):
            nm = name_of(eng, x)
            if nm == "std::fs::File::open" and all(path in roots(eng, a[0]) for a in call_args(eng, x)):
                continue
            if OPEN.match(nm) and all(path in roots(eng, a[1]) for a in call_args(eng, x)):
                continue
            if READERS.match(nm) and all(opened(eng, a[-1] if nm.endswith("with_capacity") else a[0], path, d + 1) for a in call_args(eng, x)):
                continue
        return False
    return True


def size_of(eng, v, path):
    """Is v the size of the file at `path`?"""
    xs = roots(eng, v)
    if not xs:
        return False
    for x in xs:
        if x[0] in ("r", "o") and re.search(r"^std::fs::Metadata::len$|MetadataExt::(size|st_size)$", name_of(eng, x)):
            good = True
            for a in call_args(eng, x):
                for m in roots(eng, a[0]):
                    if not (m[0] in ("r", "o")):
                        good = False
                        continue
                    nm = name_of(eng, m)
                    for b in call_args(eng, m):
                        if re.search(r"^std::fs::metadata$|^std::path::(Path|PathBuf)::metadata$", nm):
                            good = good and path in roots(eng, b[0])
                        elif nm == "std::fs::File::metadata":
                            good = good and opened(eng, b[0], path)
                        else:
                            good = False
            if good:
                continue
        return False
    return True


def elements(eng, st, v, h=None):
    """The elements of a small list literal (vec![..] or pushes), None if unknown."""
    out = []
    for x in strip(eng, v):
        muts = []
        while x[0] == "mut":
            muts += [eng.sites[s] for s in eng.muts[x]]
            x = x[1]
        xs = roots(eng, x)
        if len(xs) != 1:
            return None
        x = next(iter(xs))
        if x[0] == "agg" and x[1] == "array":
            e = list(x[3])
        elif x[0] in ("r", "o") and re.search(r"::(new|with_capacity|default)$", name_of(eng, x)):
            e = []
        elif x[0] in ("r", "o") and re.search(r"(collect|to_vec|into_vec|from)$", name_of(eng, x)):
            e = [y for a in call_args(eng, x) for y in a if y[0] != "it"]
            e = [y for y in e if y[0] != "clo"]
            if len(e) == 1 and e[0][0] == "agg" and e[0][1] == "array":
                e = list(e[0][3])
        else:
            return None
        seen = set()
        for s in muts:
            if not s.name.endswith("::push"):
                return None
            if s.sid in seen:
                continue
            seen.add(s.sid)
            e += [a[1] for a in s.args]
        out.append(e)
    return out[0] if len(out) == 1 else None


def cachefns(an):
    return [an.tm("SqliteCache", "Cache", m) for m in ("get", "put")]


def C23(an, ck):
    n = Seen()
    forms = {}
    top = an.fn("snapcd::dir::put_fs_item")
    hashf = an.fn("snapcd::dir::hash_fs_item")
    for fn in (an.recursive(top), hashf):
        pi = next((i for i in range(fn.argc) if re.search(r"\bPath(Buf)?\b", fn.locals[i + 1][0]["s"])), None)
        if pi is None:
            raise CheckError("%s takes no path" % fn.short)
        path = param(fn, pi)
        found = []
        who = "archiving" if fn is not hashf else "comparing"

        def on_ret(eng, st, f, ctx, v):
            if not outermost(eng, ctx):
                return
            p = okval(v)
            if p is None:
                return
            q = mk("v", v, 0, 0) if p is False else p
            items = stored_item(an, eng, q)
            if items is None:
                if fn is hashf and all(x[0] in ("r", "o") and re.search(r"^Cache::get$", name_of(eng, x)) for x in roots(eng, q)):
                    n.hit("answers taken from the cache (C22)", fn.id)
                    return
                ck.bad("key returned by %s" % fn.short, "%s can return %s, which is not the key of an item it stored" % (fn.pretty(), eng.show(v)), fn.span)
                return
            for it in items:
                ks = kind_of(an, eng, it)
                if fn is hashf and ks != {"File"}:
                    ck.bad("kind in %s" % fn.short, "%s records a file as %s" % (fn.pretty(), "/".join(sorted(ks))), fn.span)
                    continue
                if "File" not in ks:
                    continue
                found.append(it)
                n.hit("file items built", fn.id)
                F = lambda nm: eng.proj(it, ("f", an.field(FSITEM, nm), nm))
                ch = elements(eng, st, F("children"))
                if ch is None or len(ch) != 1:
                    ck.bad("children in %s" % fn.short, "%s: a file's item holds %s, not the one key of its contents" % (who, eng.show(F("children"))), fn.span)
                else:
                    for x in roots(eng, ch[0]):
                        s = eng.sites[x[1]] if x[0] in ("r", "o") else None
                        if s is None or not s.name.endswith("file::put_data"):
                            ck.bad("contents in %s" % fn.short, "%s: the key of a file's contents is %s" % (who, eng.show(ch[0])), fn.span)
                            continue
                        for a in s.args:
                            n.hit("contents read", fn.id)
                            if not opened(eng, a[1], path):
                                ck.bad("reader in %s" % fn.short, "%s: the contents are read from %s, not the whole file at the path given" % (who, eng.show(a[1])), s.span)
                nm = elements(eng, st, F("children_names"))
                if nm is None or nm:
                    ck.bad("names in %s" % fn.short, "%s: a file's item records the names %s" % (who, eng.show(F("children_names"))), fn.span)
                if not size_of(eng, F("size"), path):
                    ck.bad("size in %s" % fn.short, "%s: the size recorded for a file is %s, not the size of the file" % (who, eng.show(F("size"))), fn.span)
        e = an.engine(Mon(cut=cuts(an) + [fn] + cachefns(an), on_ret=on_ret))
        ck.absorb(e, e.run(fn.id))
        if not found:
            ck.bad("no file recorded by %s" % fn.short, "%s never stores a file's item" % fn.pretty(), fn.span)
    wrapper(an, ck, n, top, an.recursive(top))
    # which file is hashed
    comp = an.fn("snapcd::diff::compare")
    dt = "snapcd::diff::DiffTarget"
    fs = an.variant(dt, "FileSystem")
    tp = next((i for i in range(comp.argc) if "DiffTarget" in comp.locals[i + 1][0]["s"]), None)
    if tp is None:
        raise CheckError("compare takes no DiffTarget")
    base = mk("v", param(comp, tp), fs, 0)

    def below(eng, v):
        return base in strip(eng, v) or roots(eng, base) == roots(eng, v)

    def on_call(eng, st, ev):
        if ev.local is None or ev.local.id != hashf.id:
            return
        pi = next(i for i in range(hashf.argc) if re.search(r"\bPath(Buf)?\b", hashf.locals[i + 1][0]["s"]))
        n.hit("files hashed by compare", ev)
        at = (ev.span, eng.chain(ev.ctx))
        for x in roots(eng, ev.args[pi]):
            good = False
            if x[0] in ("r", "o") and JOIN.match(name_of(eng, x)) and name_of(eng, x).endswith("join"):
                good = all(below(eng, a[0]) for a in call_args(eng, x))
            elif x[0] == "mut" and all(eng.sites[s].name.endswith("PathBuf::push") for s in eng.muts[x]):
                good = below(eng, x[1])
            if not good:
                ck.bad("file hashed by compare", "compare hashes the file at %s, which is not built below the directory being compared" % eng.show(ev.args[pi]), *at)
    e = an.engine(Mon(cut=[hashf, an.fn("snapcd::dir::walk_fs_items"), an.fn("snapcd::dir::walk_real_fs_items"), an.fn("snapcd::filter::make_filter_fn")], on_call=on_call))
    ck.absorb(e, e.run(comp.id))
    if not n["files hashed by compare"]:
        raise CheckError("compare hashes no file")
    n.into(ck)
