"""C21: how two trees are compared."""
from itertools import product
from .trees import *

ADDED, DELETED, MODIFIED = "snapcd::diff::AddedDiffResult", "snapcd::diff::DeletedDiffResult", "snapcd::diff::ModifiedDiffResult"
RESULT_ = "snapcd::diff::DiffResult"
KIND = {ADDED: "A", DELETED: "D", MODIFIED: "M"}
WORD = {"A": "added", "D": "deleted", "M": "modified"}
# what can be the case for one path: which side has it, as a directory or not, and whether the keys are equal
WORLDS = frozenset([(1, 0, d, None, None) for d in (0, 1)] + [(0, 1, None, d, None) for d in (0, 1)]
                   + [(1, 1, 0, 0, e) for e in (0, 1)] + [(1, 1, 1, 1, e) for e in (0, 1)] + [(1, 1, 0, 1, 0), (1, 1, 1, 0, 0)])
SIDES = {"F": 0, "T": 1}


def expected(w):
    f, t, df, dt, eq = w
    if f and not t:
        return {"A"}
    if t and not f:
        return {"D"}
    if df != dt:
        return {"A", "D"}
    return set() if df or eq else {"M"}


def tell(w):
    f, t, df, dt, eq = w
    kind = lambda d: "directory" if d else "file"
    if f and not t:
        return "a %s only the first has" % kind(df)
    if t and not f:
        return "a %s only the second has" % kind(dt)
    if df != dt:
        return "a %s that was a %s" % (kind(df), kind(dt))
    return "a %s both have, %s" % (kind(df), "unchanged" if eq else "with other contents")


class Compare:
    def __init__(self, an, ck, n):
        self.an, self.ck, self.n = an, ck, n
        self.fn = fn = an.fn("snapcd::diff::compare")
        self.walk, self.real = an.fn("snapcd::dir::walk_fs_items"), an.fn("snapcd::dir::walk_real_fs_items")
        self.hash = an.fn("snapcd::dir::hash_fs_item")
        self.mkf = an.fn("snapcd::filter::make_filter_fn")
        self.frm = self.to = None
        for i in range(fn.argc):
            s = fn.locals[i + 1][0]["s"]
            if "DiffTarget" in s:
                self.frm = param(fn, i)
            elif re.search(r"TypedKey<", s):
                self.to = param(fn, i)
        if self.frm is None or self.to is None:
            raise CheckError("compare does not take two sides")
        self.fsv, self.dbv = an.variant("snapcd::diff::DiffTarget", "FileSystem"), an.variant("snapcd::diff::DiffTarget", "Database")
        self.F = {k: {f[0]: i for i, f in enumerate(an.adts[k]["v"][0][1])} for k in (ADDED, DELETED, MODIFIED, RESULT_)}
        for k, fs in ((ADDED, ("path", "is_dir", "new_key")), (DELETED, ("path", "is_dir", "original_key")), (MODIFIED, ("path", "original_key", "new_key")),
                      (RESULT_, ("added", "deleted", "modified"))):
            for f in fs:
                if f not in self.F[k]:
                    raise CheckError("field %s.%s not found" % (k, f))
        self.lists = {}          # place of a list -> (maybe, must)
        self.opaque = set()      # lists that are cut down in a way that is not followed
        self.reset()

    def reset(self):
        self.base, self.ends, self.occ, self.rets = {}, {}, {}, []
        self.kept_, self.undecided = {}, set()
        self.found = []

    def bad(self, *a):
        self.found.append(a)

    # -- sides, sets and elements
    def side(self, eng, v, d=0):
        """Which side's map of paths v is: F (and whether it is the file system's), T, or None."""
        out = set()
        for x in roots(eng, v):
            c = getattr(eng.sites[x[1]].callee, "id", None) if x[0] in ("r", "o") else None
            if c == self.real.id:
                out.add(("F", True))
            elif c == self.walk.id:
                k = keyparam(self.walk)
                for a in call_args(eng, x):
                    for y in roots(eng, a[k]):
                        out.add(("T", False) if self.to in roots(eng, y) or y[0] == "v" and y[1] == self.to else
                                ("F", False) if y == self.frm or y[0] == "v" and y[1:] == (self.frm, self.dbv, 0) else None)
            elif x[0] in ("r", "o") and re.search(r"Map::(new|with_capacity)$|::default$", name_of(eng, x)) and RESULTMAP.search((eng.sites[x[1]].dty or {}).get("s", "")):
                out.add(("T", False))
            else:
                return None
        return next(iter(out)) if len(out) == 1 else None

    def holder(self, eng, v):
        for _ in range(20):
            if v[0] in ("mut", "conv"):
                v = v[1]
                continue
            xs = roots(eng, v)
            if len(xs) != 1:
                return None
            x = next(iter(xs))
            if x == v:
                break
            v = x
        if v[0] in ("r", "o"):
            if re.search(r"::(iter|into_iter|as_slice|iter_mut|by_ref|deref|deref_mut|into_boxed_slice|as_mut_slice|drain)$", name_of(eng, v)):
                for a in call_args(eng, v):
                    return self.holder(eng, a[0])
            return v[1]
        return None

    def set_(self, eng, v, d=0):
        """(worlds of what may be in the set, worlds of what must be), or None."""
        if d > 12:
            return None
        if v[0] == "it":
            bs = bases(v)
            return self.set_(eng, bs[0], d + 1) if len(bs) == 1 else None
        s = self.side(eng, v)
        if s:
            w = frozenset(w for w in WORLDS if w[SIDES[s[0]]])
            return w, w
        h = self.holder(eng, v)
        if h is not None and place(eng, h) in self.opaque:
            return None
        if h is not None and place(eng, h) in self.lists:
            return self.lists[place(eng, h)]
        out = None
        for x in roots(eng, v, mut=True):
            r = None
            if x[0] in ("r", "o"):
                nm, args = name_of(eng, x), call_args(eng, x)
                for a in args:
                    m = re.search(r"Set::(difference|intersection|union|symmetric_difference)$|^(?:std::ops::)?(Sub::sub|BitAnd::bitand|BitOr::bitor|BitXor::bitxor)$", nm)
                    if m and len(a) == 2:
                        p, q = self.set_(eng, a[0], d + 1), self.set_(eng, a[1], d + 1)
                        if p is None or q is None:
                            return None
                        op = m.group(1) or m.group(2)
                        r = {"d": (p[0] - q[1], p[1] - q[0]), "i": (p[0] & q[0], p[1] & q[1]), "u": (p[0] | q[0], p[1] | q[1]),
                             "s": ((p[0] | q[0]) - (p[1] & q[1]), (p[1] - q[0]) | (q[1] - p[0]))}[
                                 {"Sub::sub": "d", "BitAnd::bitand": "i", "BitOr::bitor": "u", "BitXor::bitxor": "s"}.get(op, op[0])]
                    elif re.search(r"(Map::(keys|into_keys|iter)|(Set|slice|Vec)::iter|::(into_iter|deref|as_slice|clone|copied|cloned))$", nm):
                        r = self.set_(eng, a[0], d + 1)
                    elif REORDER.match(nm):
                        r = self.set_(eng, a[0], d + 1)
                    if r is None:
                        return None
                    out = r if out is None else (out[0] | r[0], out[1] & r[1])
            else:
                return None
        return out

    def worlds(self, st, p):
        for t in st.mon:
            if t[0] == "el" and t[1] == p:
                return t[3]
        return None

    def narrow(self, st, p, keep):
        for t in [t for t in st.mon if t[0] == "el" and t[1] == p]:
            st.mon = st.mon - {t}
            add(st, "el", p, t[2], frozenset(w for w in t[3] if keep(w)))

    def element(self, eng, st, v):
        """The element v is (a copy of)."""
        els = {t[1] for t in st.mon if t[0] == "el"}
        xs = roots(eng, v)
        return next(iter(xs)) if len(xs) == 1 and xs <= els else None

    # -- values found for an element
    def value(self, eng, st, x):
        """(side, real, element) if x is what a side's map has for an element."""
        for y in roots(eng, x):
            for t in st.mon:
                if t[0] == "val" and t[1] == y:
                    return t[2], t[3], t[4]
        return None

    def flag(self, eng, st, x):
        for y in roots(eng, x):
            v = self.value(eng, st, y)
            if v and v[1]:
                return v[0], v[2]
            if y[0] == "f" and y[2] == 1:
                v = self.value(eng, st, y[1])
                if v and not v[1]:
                    return v[0], v[2]
        return None

    def key(self, eng, st, x):
        """(side, element) whose key x is."""
        out = set()
        for y in roots(eng, x):
            if y[0] == "f" and y[2] == 0:
                v = self.value(eng, st, y[1])
                out.add((v[0], v[2]) if v and not v[1] else None)
            elif y[0] in ("r", "o") and getattr(eng.sites[y[1]].callee, "id", None) == self.hash.id:
                out.add(next((("F", t[2]) for t in st.mon if t[0] == "hashed" and t[1] == y), None))
            else:
                out.add(None)
        return next(iter(out)) if len(out) == 1 else None

    def eval(self, eng, st, x, p, w):
        """What a condition about element p is in world w."""
        if x[0] == "c" and x[1] == "int":
            return x[2]
        if x[0] == "un" and x[1] == "Not":
            r = self.eval(eng, st, x[2], p, w)
            return None if r is None else 1 - r
        if x[0] == "bin" and x[1] in ("Eq", "Ne", "BitXor", "BitAnd", "BitOr"):
            a, b = x[2], x[3]
            if x[1] in ("Eq", "Ne") and {self.key(eng, st, a), self.key(eng, st, b)} == {("F", p), ("T", p)}:
                r = w[4]
                if r is None or w[2] and w[2] == w[3] and self.isreal(eng, st):
                    return None
                return r if x[1] == "Eq" else 1 - r
            va, vb = self.value(eng, st, a), self.value(eng, st, b)
            if x[1] in ("Eq", "Ne") and va and vb and not va[1] and not vb[1] and {va[0], vb[0]} == {"F", "T"} and va[2] == vb[2] == p:
                return w[4] if w[4] is None or x[1] == "Eq" else 1 - w[4]
            r, s = self.eval(eng, st, a, p, w), self.eval(eng, st, b, p, w)
            if r is None or s is None:
                return None
            return {"Eq": int(r == s), "Ne": int(r != s), "BitXor": r ^ s, "BitAnd": r & s, "BitOr": r | s}[x[1]]
        f = self.flag(eng, st, x)
        if f and f[1] == p:
            return w[2 if f[0] == "F" else 3]
        for y in roots(eng, x):
            for t in st.mon:
                if t[0] == "member" and t[1] == y and t[2] == p:
                    mb, ms = t[3]
                    return 1 if w in ms else 0 if w not in mb else None
        xs = roots(eng, x)
        if len(xs) == 1 and xs != {x}:
            return self.eval(eng, st, next(iter(xs)), p, w)
        return None

    def isreal(self, eng, st):
        return any(t[0] == "val" and t[3] for t in st.mon)

    # -- events
    def on_fact(self, eng, st, v, val, eq):
        if v == mk("discr", self.to) and (val == 0) == eq:
            add(st, "noto")
        if v[0] == "discr":
            for y in roots(eng, v[1]) | {v[1]}:
                for t in list(st.mon):
                    if t[0] == "got" and t[1] == y:
                        some = (val == 1) == eq
                        mb, ms = t[3]
                        self.narrow(st, t[2], lambda w: w in mb if some else w not in ms)
            return
        truth = (val == 1) == eq
        for t in [t for t in st.mon if t[0] == "el"]:
            p = t[1]
            self.narrow(st, p, lambda w: self.eval(eng, st, v, p, w) in (None, int(truth)))

    def on_result(self, eng, st, ev, v):
        nm = ev.name
        if re.search(r"^Index::index$|Map::(get|get_key_value|index|remove|remove_entry)$", nm) and len(ev.args) == 2:
            s = self.side(eng, ev.args[0])
            p = self.element(eng, st, ev.args[1])
            if s and p is not None:
                w = frozenset(w for w in WORLDS if w[SIDES[s[0]]])
                if nm == "Index::index":
                    add(st, "val", v, s[0], s[1], p)
                elif nm.endswith("::get"):
                    add(st, "val", v, s[0], s[1], p)
                    add(st, "got", v, p, (w, w))
        elif re.search(r"(Map::contains_key|Set::contains|(slice|Vec)::contains)$", nm) and len(ev.args) == 2:
            s, p = self.set_(eng, ev.args[0]), self.element(eng, st, ev.args[1])
            if s and p is not None:
                add(st, "member", v, p, s)
        elif re.search(r"Set::get$", nm) and len(ev.args) == 2:
            s, p = self.set_(eng, ev.args[0]), self.element(eng, st, ev.args[1])
            if s and p is not None:
                add(st, "got", v, p, s)
        elif ev.local is not None and ev.local.id == self.hash.id:
            at = (ev.span, eng.chain(ev.ctx))
            self.n.hit("files hashed", ev)
            path = ev.args[pathparam(self.hash)]
            for x in roots(eng, path):
                if x[0] in ("r", "o") and re.search(r"Path(Buf)?::(join|push)$", name_of(eng, x)):
                    for a in call_args(eng, x):
                        p = self.element(eng, st, a[1])
                        if p is None:
                            continue
                        add(st, "hashed", v, p)
                        ws = self.worlds(st, p)
                        if any(not w[0] for w in ws):
                            self.bad("hash of a path in compare", "compare can hash %s in the working directory, which does not have it" % tell(next(w for w in sorted(ws, key=repr) if not w[0])), *at)
                        elif any(w[2] for w in ws):
                            self.bad("hash of a directory in compare", "compare can read a directory as if it were a file (%s)" % tell(next(w for w in sorted(ws, key=repr) if w[2])), *at)

    def on_item(self, eng, st, ev, it, v):
        I = v[1] if v[0] in ("r", "o") else None
        if I is None:
            return
        self.finish(eng, st, I)
        drop(st, lambda t: t[0] == "run" and t[1] == I)
        base = it[2][0]
        s = self.side(eng, base)
        if s is None:
            for x in roots(eng, base):
                if x[0] in ("r", "o") and re.search(r"Map::(iter|iter_mut|into_iter|drain)$", name_of(eng, x)):
                    for a in call_args(eng, x):
                        s = self.side(eng, a[0])
        pairs = s is not None
        ws = self.set_(eng, base)
        if ws is None:
            return
        p = mk("f", v, 0) if pairs else v
        pl = place(eng, I)
        b = self.base.get(pl)
        self.base[pl] = ws if b is None else (b[0] | ws[0], b[1] & ws[1])
        self.n.hit("sets of paths gone through", ev)
        cur = ws[0]
        if has(st, "noto"):
            cur = frozenset(w for w in cur if not w[1])
        add(st, "el", p, I, cur)
        add(st, "run", I)
        if pairs:
            add(st, "val", mk("f", v, 1), s[0], s[1], p)

    def finish(self, eng, st, I):
        """The element at hand of iteration I is done with."""
        for t in [t for t in st.mon if t[0] == "el" and t[2] == I]:
            p = t[1]
            ks = frozenset(x[2] for x in st.mon if x[0] == "em" and x[1] == p)
            self.ends.setdefault(place(eng, I), set()).add((t[3], ks))
            drop(st, lambda x: x is t or x[0] in ("em", "hashed") and p in x[1:] or x[0] == "val" and x[4] == p or x[0] in ("got", "member") and x[2] == p or x == t)

    def on_end(self, eng, st, ev, it):
        I = iteration(eng, ev, it)
        if I is None:
            return
        self.finish(eng, st, I)
        drop(st, lambda t: t[0] == "run" and t[1] == I)
        add(st, "done", place(eng, I))

    def emit(self, eng, st, h, x, ev):
        """A record x goes into list h."""
        at = (ev.span, eng.chain(getattr(ev, "ctx", 0)))
        K = KIND[x[1]]
        fs = self.F[x[1]]
        get = lambda f: x[3][fs[f]]
        add(st, "held", h)
        p = self.element(eng, st, get("path"))
        self.n.hit("%s records made" % WORD[K], at[0])
        if p is None:
            if any(t[0] == "el" for t in st.mon) and roots(eng, get("path")) and not any(name_of(eng, y) == "next" or y[0] == "f" for y in roots(eng, get("path"))):
                self.bad("path of %s" % WORD[K], "compare reports %s as %s, which is not a path of either side" % (eng.show(get("path")), WORD[K]), *at)
            self.undecided.add(K)
            return
        ws = self.worlds(st, p)
        if has(st, "em", p, K):
            self.bad("%s twice" % WORD[K], "compare can report the same path as %s twice" % WORD[K], *at)
        add(st, "em", p, K)
        I = next(t[2] for t in st.mon if t[0] == "el" and t[1] == p)
        self.occ.setdefault((place(eng, I), K), set()).update(ws)
        wrong = sorted((w for w in ws if K not in expected(w)), key=repr)
        if wrong:
            self.bad("wrongly %s: %s" % (WORD[K], tell(wrong[0])), "compare can report %s as %s" % (tell(wrong[0]), WORD[K]), *at)
            return
        if K != "M":
            i = 2 if K == "A" else 3
            r = {(self.eval(eng, st, get("is_dir"), p, w), w[i]) for w in ws}
            if any(a is None or a != b for a, b in r):
                self.bad("kind of %s" % WORD[K], "compare reports %s as the kind of what is %s" % (eng.show(get("is_dir")), WORD[K]), *at)
        for f, S in {"A": (("new_key", "F"),), "D": (("original_key", "T"),), "M": (("original_key", "T"), ("new_key", "F"))}[K]:
            for y in strip(eng, get(f)):
                if y[0] == "agg" and y[1] == OPTION and y[2] == 0:
                    dirs = all(w[2 if S == "F" else 3] for w in ws)
                    fs_ = any(t[0] == "val" and t[4] == p and t[3] for t in st.mon)
                    if not (dirs and S == "F" and fs_):
                        self.bad("no key of %s" % WORD[K], "compare can leave out the key of what is %s" % WORD[K], *at)
                elif self.key(eng, st, y) != (S, p):
                    self.bad("%s of %s" % (f, WORD[K]), "compare records %s as the %s of what is %s, not the key the %s side has for that path" % (
                        eng.show(y), f.replace("_", " "), WORD[K], {"F": "first", "T": "second"}[S]), *at)

    def keep(self, eng, st, h, v, ev):
        if h is None:
            return
        for x in strip(eng, v):
            if x[0] == "agg" and x[1] in KIND:
                self.emit(eng, st, h, x, ev)
                return
        p = self.element(eng, st, v)
        if p is not None:
            c = ("list", place(eng, h))
            add(st, "em", p, c)
            I = next(t[2] for t in st.mon if t[0] == "el" and t[1] == p)
            self.occ.setdefault((place(eng, I), c), set()).update(self.worlds(st, p))

    def on_call(self, eng, st, ev):
        at = (ev.span, eng.chain(ev.ctx))
        nm = ev.name
        if PUSH.match(nm) and len(ev.args) >= 2 and ev.args[-1][0] != "it":
            self.keep(eng, st, self.holder(eng, ev.args[0]), ev.args[-1], ev)
        if LOSSY.match(nm) and not re.search(r"dedup$|unique$", nm) and ev.args:
            hs = {self.holder(eng, b) for b in bases(ev.args[0])}
            if any(has(st, "held", h) for h in hs if h is not None):
                self.bad("%s in compare" % last(nm), "compare can drop something it found (%s)" % nm, *at)
            if re.search(r"::(skip|take|step_by|nth|truncate|pop|remove|swap_remove|drain|split_off|clear|split_first|split_last|split_at)$", nm) and any(
                    self.set_(eng, b) for b in bases(ev.args[0])):
                self.bad("%s of the paths in compare" % last(nm), "compare can skip some of the paths it goes through (%s)" % nm, *at)
            for h in hs:
                if h is not None and nm.endswith("::retain") and place(eng, h) in self.lists:
                    self.opaque.add(place(eng, h))
        if nm == "Index::index" and len(ev.args) == 2:
            s, p = self.side(eng, ev.args[0]), self.element(eng, st, ev.args[1])
            if s and p is not None:
                self.n.hit("lookups of a path", ev)
                self.need(st, s[0], p, at)
        if re.search(r"^std::option::Option::(unwrap|expect|unwrap_unchecked)$", nm):
            for y in roots(eng, ev.args[0]) | strip(eng, ev.args[0]):
                for t in list(st.mon):
                    if t[0] == "got" and t[1] == y:
                        ws = self.worlds(st, t[2])
                        lack = sorted((w for w in ws or () if w not in t[3][1]), key=repr)
                        if lack:
                            self.bad("lookup of %s" % tell(lack[0]), "compare can look up %s on the side that lacks it" % tell(lack[0]), *at)
        if ev.local is None:
            return
        if ev.local.id == self.walk.id:
            self.n.hit("trees walked", ev)
            for y in roots(eng, ev.args[keyparam(self.walk)]):
                if not (y == self.frm or y[0] == "v" and y[1:] == (self.frm, self.dbv, 0) or y == self.to or y[0] == "v" and y[1] == self.to):
                    self.bad("tree compared", "compare walks %s, which is neither of the sides given" % eng.show(y), *at)
        elif ev.local.id == self.real.id:
            self.n.hit("working directories walked", ev)
            for y in roots(eng, ev.args[pathparam(self.real)]):
                if not (y == self.frm or y[0] == "v" and y[1:] == (self.frm, self.fsv, 0)):
                    self.bad("directory compared", "compare walks %s, not the directory given" % eng.show(y), *at)

    def need(self, st, S, p, at):
        ws = self.worlds(st, p)
        lack = sorted((w for w in ws or () if not w[SIDES[S]]), key=repr)
        if lack:
            self.bad("lookup of %s" % tell(lack[0]), "compare can look up %s on the side that lacks it" % tell(lack[0]), *at)

    def kept(self, eng, st, site, v):
        class E:
            span, ctx = site.span, site.ctx
        h = site.sid
        if site.name == "Extend::extend":
            h = None
            for a in site.args:
                h = self.holder(eng, a[0])
        self.keep(eng, st, h, v, E)

    def on_ret(self, eng, st, f, ctx, v):
        if not outermost(eng, ctx) or okval(v) is None:
            return
        for t in [t for t in st.mon if t[0] == "el"]:
            self.finish(eng, st, t[2])
        r = okval(v)
        got = eng.origins(r) if r is not False else eng.origins(v)
        sids = {x[1] for x in got if x[0] in ("r", "o")}
        for t in st.mon:
            if t[0] == "held" and t[1] not in sids:
                self.bad("result lost", "compare can leave what it put into a list (%s) out of its result" % place(eng, t[1])[0], f.span)
        self.rets.append((frozenset(t[1] for t in st.mon if t[0] == "done"), has(st, "noto")))

    # -- the fixed point
    def once(self):
        self.reset()
        m = Mon(cut=[self.fn, self.walk, self.real, self.hash, self.mkf], on_call=self.on_call, on_result=self.on_result, on_item=self.on_item,
                on_end=self.on_end, on_fact=self.on_fact, on_ret=self.on_ret)
        m.kept = self.kept
        e = self.an.engine(m)
        outs = e.run(self.fn.id)
        new = {}
        chans = {c for (I, c) in self.occ if isinstance(c, tuple)}
        for c in chans:
            mb, ms = frozenset(), frozenset()
            for (I, c2), ws in self.occ.items():
                if c2 == c:
                    mb |= ws
                    ms |= self.cover(I, c)
            new[c[1]] = (mb, ms)
        return e, outs, new

    def cover(self, I, c):
        miss = frozenset().union(*[w for w, ks in self.ends.get(I, ()) if c not in ks])
        return self.base[I][1] - miss

    def run(self):
        was = set()
        for _ in range(6):
            e, outs, new = self.once()
            if new == self.lists and self.opaque == was:
                break
            was = set(self.opaque)
            self.lists = new
        else:
            raise CheckError("compare: the lists did not settle")
        self.ck.absorb(e, outs)
        for a in self.found:
            self.ck.bad(*a)
        if not self.rets:
            raise CheckError("compare never succeeds")
        for K in sorted(self.undecided):
            self.ck.notes.append("where the %s paths come from was not recognised; whether all are reported is not decided" % WORD[K])
        for done, noto in sorted(set(self.rets), key=repr):
            for K in "ADM":
                if K in self.undecided:
                    continue
                have, twice = set(), set()
                for I in done:
                    if I in self.base:
                        o = self.occ.get((I, K), set())
                        twice |= have & o
                        have |= self.cover(I, K) if o else set()
                miss = sorted((w for w in WORLDS if K in expected(w) and w not in have and not (noto and w[1])), key=repr)
                self.n.hit("successful ends of compare", K)
                if miss:
                    self.ck.bad("not %s: %s" % (WORD[K], tell(miss[0])), "compare can leave out %s, which should be reported as %s" % (tell(miss[0]), WORD[K]), self.fn.span)


def iteration(eng, ev, it):
    """The site an iterator's elements come from."""
    return next((s.sid for s in eng.sites.values() if s.name == "next" and s.ctx == ev.ctx and s.bb == ev.bb and
                 any(a and a[0] == it[2][0] for a in s.args)), None)


def C21(an, ck):
    n = Seen()
    Compare(an, ck, n).run()
    n.into(ck)
