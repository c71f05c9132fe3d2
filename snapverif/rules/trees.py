"""C30: fetching and walking cover the whole tree."""
from .listing import *
from .codec import Variants, itemkind

RESULTMAP = re.compile(r"\b(HashMap|BTreeMap)<")


def pathparam(fn, k=0):
    ps = [i for i in range(fn.argc) if re.search(r"\bPath(Buf)?\b", fn.locals[i + 1][0]["s"]) and not RESULTMAP.search(fn.locals[i + 1][0]["s"])]
    if len(ps) <= k:
        raise CheckError("%s takes no path" % fn.short)
    return ps[k]


def keyparam(fn):
    for i in range(fn.argc):
        if re.search(r"\bKey\b|TypedKey<", fn.locals[i + 1][0]["s"]) and not RESULTMAP.search(fn.locals[i + 1][0]["s"]):
            return i
    raise CheckError("%s takes no key" % fn.short)


def components(eng, x):
    """The call of Path::components an iterator comes from."""
    while x[0] in ("it", "mut"):
        x = x[2][0] if x[0] == "it" else x[1]
    return x if x[0] in ("r", "o") and re.search(r"^std::path::Path(Buf)?::(components|iter)$", name_of(eng, x)) else None


def plain(eng, v, d=0):
    """The names a path component was made from without loss."""
    out = set()
    for x in roots(eng, v):
        if d < 10 and x[0] == "v" and name_of(eng, x[1]) == "next":
            # the Normal part of a component
            out |= plain(eng, x[1], d + 1)
            continue
        if d < 10 and x[0] in ("r", "o"):
            nm = name_of(eng, x)
            args = call_args(eng, x)
            if nm == "next" and args and all(components(eng, a[0]) for a in args):
                for a in args:
                    for b in call_args(eng, components(eng, a[0])):
                        out |= plain(eng, b[0], d + 1)
                continue
            if nm.endswith("Path::components"):
                for b in args:
                    out |= plain(eng, b[0], d + 1)
                continue
            if re.search(r"Component::as_os_str$|^std::path::(Path|PathBuf)::file_name$", nm) or SAME.match(nm):
                for a in args:
                    out |= plain(eng, a[0], d + 1)
                continue
        out.add(x)
    return out


def joined(eng, v, base):
    """The names put below `base` to make the path v, or None if it is not built that way."""
    out = set()
    for x in roots(eng, v):
        if x[0] in ("r", "o") and re.search(r"^std::path::(Path|PathBuf)::(join|push)$", name_of(eng, x)):
            for a in call_args(eng, x):
                if base not in roots(eng, a[0]):
                    return None
                out |= plain(eng, a[1])
        elif x[0] in ("r", "o") and re.search(r"^(FromIterator|Iterator)::(from_iter|collect)$", name_of(eng, x)):
            for a in call_args(eng, x):
                for y in plain(eng, a[0]):
                    if y != base:
                        out.add(y)
        else:
            return None
    return out or None


class Tree(Each):
    """A recursive descent into the entries of a directory object."""

    def __init__(self, an, ck, n, fn, verb):
        self.an = an
        self.decs = {f.id for f in an.decoders("FSItem")}
        self.pk, self.pp = keyparam(fn), pathparam(fn)
        self.key_, self.path = param(fn, self.pk), param(fn, self.pp)
        self.kind = Variants(an, ITEMTYPE, itemkind, "kind")
        self.recs = 0
        Each.__init__(self, n, ck, fn, "the entries of a directory", self.src_, verb, order=False)

    def decoded(self, eng, x):
        """Is x the item stored under the key given?"""
        ys = roots(eng, x)
        return bool(ys) and all(y[0] in ("r", "o") and (getattr(eng.sites[y[1]].callee, "id", None) in self.decs or re.search(r"(^|::)(try_into|try_from)$", name_of(eng, y)))
                                for y in ys)

    def src_(self, eng, base):
        for x in roots(eng, base):
            if x[0] == "f" and x[2] in ("children", "children_names") and self.decoded(eng, x[1]):
                return x[2]
        return None

    def item(self, eng, st, ev, it, v):
        k = self.key(eng, it[2][0])
        if k == "children_names":
            if has(st, "npend"):
                add(st, "nskip")
            drop(st, lambda t: t[0] in ("name", "npend"))
            add(st, "name", v)
            add(st, "npend")
            return
        if k == "children":
            drop(st, lambda t: t[0] == "gone")
        Each.item(self, eng, st, ev, it, v)

    def end(self, eng, st, ev, it):
        k = self.key(eng, it[2][0])
        if k == "children_names":
            # a zip ends with the shorter of the two; they are equally long (C20)
            if has(st, "open", "children") or not has(st, "nskip") and not has(st, "npend"):
                add(st, "ended", "children")
            drop(st, lambda t: t[0] in ("open", "pend") and t[1] == "children" or t[0] in ("nskip", "npend", "name"))
            return
        if k is None and has(st, "open", "children") and made(eng, it[2][0]):
            # the end of a list of the function's own, made from the entries
            self.ck.notes.append("%s goes through a list it made itself; whether it holds every entry is not decided" % self.fn.pretty())
            drop(st, lambda t: t[0] in ("open", "pend") and t[1] == "children")
            add(st, "ended", "children")
        Each.end(self, eng, st, ev, it)

    def call(self, eng, st, ev):
        Each.call(self, eng, st, ev)
        if REORDER.match(ev.name) and ev.args:
            ks = {self.key(eng, x) for x in bases(ev.args[0])}
            if len(ks - {None}) == 1 and not (ev.args[0][0] == "it" and "zip" in kindsof(ev.args[0])):
                self.ck.bad("order of %s in %s" % (sorted(ks - {None})[0], self.fn.short), "%s pairs the entries of a directory with the names of others (%s)" % (
                    self.fn.pretty(), ev.name), ev.span, eng.chain(ev.ctx))

    def position(self, eng, st, x, which):
        """Where in its list the entry is that x is: the current one, an index, or None."""
        cur = {t[2] for t in st.mon if t[0] == "pend" and t[1] == "children"} | {t[1] for t in st.mon if t[0] in ("name", "gone")}
        if which == "children" and x in {t[2] for t in st.mon if t[0] == "pend" and t[1] == "children"} | {t[1] for t in st.mon if t[0] == "gone"}:
            return "now"
        if which == "children_names" and has(st, "name", x):
            return "now"
        for c, i in elem(eng, x):
            if self.src_(eng, c) == which and i is not None:
                if i[0] in ("r", "o") and eng.enums.get(i[1], set()) & cur:
                    return "now"
                return i
        return None

    def descend(self, eng, st, ev):
        """A recursive call: for which entry, and with its name?"""
        self.recs += 1
        at = (ev.span, eng.chain(ev.ctx))
        self.n.hit("entries descended into", ev)
        k, p = ev.args[self.pk], ev.args[self.pp]
        names = joined(eng, p, self.path)
        own = all(made(eng, b) for x in roots(eng, p) for b in nextof(eng, x))
        if names is None and not (own and any(nextof(eng, x) for x in roots(eng, p))):
            self.ck.bad("path of an entry in %s" % self.fn.short, "%s puts an entry at %s, which is not its own name below the path given" % (self.fn.pretty(), eng.show(p)), *at)
        ks = {self.position(eng, st, x, "children") for x in roots(eng, k)}
        if None in ks or len(ks) != 1:
            self.ck.bad("key of an entry in %s" % self.fn.short, "%s descends into %s, which is not the entry it is at" % (self.fn.pretty(), eng.show(k)), *at)
            return
        pos = next(iter(ks))
        for x in names or ():
            if self.position(eng, st, x, "children_names") != pos and not (nextof(eng, x) and all(made(eng, b) for b in nextof(eng, x))):
                self.ck.bad("name of an entry in %s" % self.fn.short, "%s puts an entry at the name %s, not at its own" % (self.fn.pretty(), eng.show(x)), *at)
        if pos == "now":
            if has(st, "npend"):
                drop(st, lambda t: t[0] == "npend")
            for t in [t for t in st.mon if t[0] == "pend" and t[1] == "children"]:
                st.mon = st.mon - {t}
                add(st, "gone", t[2])
        else:
            self.indexed(eng, st, [k], "children")

    def fact(self, eng, st, v, val, eq):
        self.kind.fact(eng, st, v, val, eq)
        Each.fact(self, eng, st, v, val, eq)

    def kinds(self, st):
        return self.kind.possible(st)

    def norec(self):
        """The function does not call itself: is that all right?"""
        if self.recs:
            return
        names = {c.name for c, g, sp in self.an.p.callgraph()[self.fn.id][0] if c is not None}
        if any(re.search(r"::(pop|pop_front|pop_back|pop_first|swap_remove|drain)$", x) for x in names):
            self.ck.notes.append("%s works off a list of its own instead of calling itself; its descent is not decided" % self.fn.pretty())
            return
        self.ck.bad("no descent in %s" % self.fn.short, "%s never goes down into the entries of a directory" % self.fn.pretty(), self.fn.span)


def kindsof(it):
    out = set()
    if it[0] == "it":
        out.add(it[1])
        for y in it[2]:
            if isinstance(y, tuple) and y:
                out |= kindsof(y)
    return out


def bases(v):
    """What an iterator goes over."""
    if v[0] == "it":
        if v[1] == "src":
            return [v[2][0]]
        return [b for y in v[2] if isinstance(y, tuple) and y and y[0] == "it" for b in bases(y)]
    return [v]


def nextof(eng, x):
    """The sequences x is an element of, if it is one."""
    return [a[0] for a in call_args(eng, x)] if name_of(eng, x) == "next" else []


def made(eng, b):
    """A list the function made itself."""
    return all(x[0] == "mut" or x[0] in ("r", "o") and re.search(r"::(new|with_capacity|default|collect|from_iter)$", name_of(eng, x)) for x in roots(eng, b))


MKDIR = re.compile(r"^std::fs::(create_dir_all|create_dir|DirBuilder::create)$")


def fetching(an, ck, n):
    top = an.fn("snapcd::dir::get_fs_item")
    fn = an.recursive(top)
    T = Tree(an, ck, n, fn, "fetched")
    rd = an.fn("snapcd::file::read_data")

    def firstchild(eng, v):
        for x in roots(eng, v):
            es = elem(eng, x)
            if es and all(T.src_(eng, c) == "children" and (i is None or i[0] == "c" and i[2] == 0) for c, i in es):
                continue
            if x[0] in ("r", "o") and name_of(eng, x) == "next" and all(T.src_(eng, a[0]) == "children" for a in call_args(eng, x)):
                continue
            return False
        return True

    def on_call(eng, st, ev):
        at = (ev.span, eng.chain(ev.ctx))
        T.call(eng, st, ev)
        if MKDIR.match(ev.name):
            n.hit("directories created", ev)
            if T.path in roots(eng, ev.args[-1]):
                add(st, "mkdir")
        if ev.local is None:
            return
        if ev.local.id == fn.id:
            T.descend(eng, st, ev)
        elif ev.local.id == rd.id:
            n.hit("contents restored", ev)
            if not firstchild(eng, ev.args[1]):
                ck.bad("contents of a file", "the contents written to a fetched file are those of %s" % eng.show(ev.args[1]), *at)
            good = False
            for x in roots(eng, ev.args[2], mut=True):
                y = x
                for _ in range(4):
                    if y[0] in ("r", "o") and re.search(r"^std::io::(BufWriter|LineWriter)::(new|with_capacity)$", name_of(eng, y)):
                        y = next(iter(roots(eng, next(iter(call_args(eng, y)))[-1], mut=True)))
                if y[0] in ("r", "o") and OPEN.match(name_of(eng, y)):
                    good = all(T.path in roots(eng, a[1]) for a in call_args(eng, y))
                elif y[0] in ("r", "o") and re.search(r"^std::fs::File::(create|create_new|create_buffered)$", name_of(eng, y)):
                    good = all(T.path in roots(eng, a[0]) for a in call_args(eng, y))
            if not good:
                ck.bad("file of the contents", "the contents of a fetched file are written to %s, not to the file at its path" % eng.show(ev.args[2]), *at)
            add(st, "restored")

    def on_ret(eng, st, f, ctx, v):
        if not outermost(eng, ctx) or okval(v) is None:
            return
        if okval(v) is False and all(x[0] in ("r", "o") for x in roots(eng, v)):
            pass
        for k in sorted(T.kinds(st)):
            n.hit("successful ends of fetching", k)
            if k == "Dir":
                T.ret(eng, st, f, v)
                if not T.ended(st, "children"):
                    ck.bad("entries not fetched", "%s can succeed for a directory without having fetched its entries" % fn.pretty(), fn.span)
                if not has(st, "mkdir"):
                    ck.bad("directory not created", "%s can succeed for a directory without having created it" % fn.pretty(), fn.span)
            elif not has(st, "restored"):
                ck.bad("file not restored", "%s can succeed for a file without having restored its contents" % fn.pretty(), fn.span)

    e = an.engine(Mon(cut=cuts(an) + [fn], on_call=on_call, on_item=T.item, on_end=T.end, on_fact=T.fact, on_ret=on_ret))
    ck.absorb(e, e.run(fn.id))
    T.norec()
    if top.id != fn.id:
        passon(an, ck, n, top, fn, {keyparam(top): keyparam(fn), pathparam(top): pathparam(fn)})
    # the command
    h = an.handler("Fetch")

    def on_call2(eng, st, ev):
        if ev.local is None or ev.local.id != top.id:
            return
        at = (ev.span, eng.chain(ev.ctx))
        n.hit("fetches by the command", ev)
        add(st, "fetched")
        k = calls(eng, ev.args[keyparam(top)], r"(^|::)canonicalize$")
        if k is None:
            ck.bad("key fetched", "fetch restores %s, not the object that was asked for" % eng.show(ev.args[keyparam(top)]), *at)
        for x in roots(eng, ev.args[pathparam(top)]):
            if not (x[0] == "f" and x[2] == "dest"):
                ck.bad("destination fetched to", "fetch writes to %s, not to the destination given" % eng.show(ev.args[pathparam(top)]), *at)

    def on_ret2(eng, st, f, ctx, v):
        if outermost(eng, ctx) and okval(v) is not None and not has(st, "fetched"):
            ck.bad("nothing fetched", "the fetch command can succeed without having fetched anything", f.span)
    e = an.engine(Mon(cut=cuts(an) + [top], on_call=on_call2, on_ret=on_ret2))
    ck.absorb(e, e.run(h.id))


def passon(an, ck, n, top, fn, argmap, empty=None):
    """A public function that only hands on to the recursive one."""
    def on_call(eng, st, ev):
        if ev.local is None or ev.local.id != fn.id:
            return
        at = (ev.span, eng.chain(ev.ctx))
        n.hit("calls handed on", ev)
        add(st, "on", ev.sid)
        for i, j in argmap.items():
            if param(top, i) not in roots(eng, ev.args[j]):
                ck.bad("argument of %s" % fn.short, "%s hands on %s" % (top.pretty(), eng.show(ev.args[j])), *at)
        if empty is not None:
            for x in roots(eng, ev.args[empty]):
                e = x[0] in ("r", "o") and re.search(r"PathBuf::new$|Default::default$|PathBuf::with_capacity$", name_of(eng, x)) or x == mk("c", "bytes", "") or (
                    x[0] in ("r", "o") and re.search(r"Path(Buf)?::(new|from)$|From::from$", name_of(eng, x)) and all(roots(eng, a[0]) == {mk("c", "bytes", "")} for a in call_args(eng, x)))
                if not e:
                    ck.bad("root of %s" % top.short, "%s starts at %s, not at the root" % (top.pretty(), eng.show(ev.args[empty])), *at)

    def on_ret(eng, st, f, ctx, v):
        if not outermost(eng, ctx) or okval(v) is None:
            return
        if not any(t[0] == "on" for t in st.mon):
            ck.bad("%s does nothing" % top.short, "%s can succeed without having called %s" % (top.pretty(), fn.pretty()), top.span)
    e = an.engine(Mon(cut=[fn], on_call=on_call, on_ret=on_ret))
    ck.absorb(e, e.run(top.id))


class Results:
    """What a walking function puts into the list it returns."""

    def __init__(self, an, ck, n, fn, path, value, T):
        self.an, self.ck, self.n, self.fn, self.path, self.value, self.T = an, ck, n, fn, path, value, T
        self.acc = next((i for i in range(fn.argc) if RESULTMAP.search(fn.locals[i + 1][0]["s"])), None)

    def isrec(self, eng, x):
        return x[0] in ("r", "o") and getattr(eng.sites[x[1]].callee, "id", None) == self.fn.id

    def subtree(self, eng, base):
        for x in roots(eng, base):
            if self.isrec(eng, x):
                return x[1]
        return None

    def insert(self, eng, st, k, v, at):
        """k -> v is listed."""
        n, ck, fn = self.n, self.ck, self.fn
        ks = roots(eng, k)
        sub = {t[1] for t in st.mon if t[0] == "sub"}
        if sub and (eng.origins(k) & sub or eng.origins(v) & sub):
            for e in sub:
                p0, p1 = eng.proj(e, ("f", 0, None)), eng.proj(e, ("f", 1, None))
                if not ks <= roots(eng, p0):
                    ck.bad("path of an entry found by %s" % fn.short, "%s lists an entry found below under %s, not under its path" % (fn.pretty(), eng.show(k)), *at)
                for x in strip(eng, v):
                    if x[0] == "agg" and x[1] == "tuple":
                        good = all(roots(eng, y) <= roots(eng, eng.proj(p1, ("f", i, None))) for i, y in enumerate(x[3]))
                    else:
                        good = roots(eng, x) <= roots(eng, p1)
                    if not good:
                        ck.bad("entry found by %s" % fn.short, "%s lists an entry found below as %s" % (fn.pretty(), eng.show(v)), *at)
            drop(st, lambda t: t[0] in ("sub",))
            return
        n.hit("entries listed", *at[:1])
        if ks != {self.path}:
            ck.bad("path listed by %s" % fn.short, "%s lists an entry under %s, not under its path" % (fn.pretty(), eng.show(k)), *at)
        flag = None
        parts = [v]
        for x in strip(eng, v):
            if x[0] == "agg" and x[1] == "tuple":
                parts = list(x[3])
        for p in parts:
            p = next(iter(strip(eng, p))) if len(strip(eng, p)) == 1 else p
            if p[0] == "c" and p[1] in ("int", "bool") and p[2] in (0, 1, True, False):
                flag = bool(p[2])
            elif parts != [v] and self.boolean(eng, p) and not self.ofkind(eng, p):
                ck.bad("kind listed by %s" % fn.short, "%s lists an entry with a kind taken from %s, not from its kind" % (fn.pretty(), eng.show(p)), *at)
            elif self.value is not None and parts != [v] and not self.boolean(eng, p):
                if not roots(eng, p) <= roots(eng, self.value):
                    ck.bad("key listed by %s" % fn.short, "%s lists the key %s, not that of the entry" % (fn.pretty(), eng.show(p)), *at)
        add(st, "own", flag)
        if not has(st, "asked"):
            add(st, "unasked")

    @staticmethod
    def ofkind(eng, p):
        """May a flag tell a directory from a file?  It cannot if all it was
        made from is other parts of the item."""
        parts = set()
        for x in eng.origins(p):
            if x[0] in ("r", "o") and re.search(r"(is_dir|is_file|file_type|metadata)$", name_of(eng, x)):
                return True
            if fieldname(x) in ("itemtype", "objtype"):
                return True
            if fieldname(x) in ("size", "children", "children_names", "name", "keys", "data"):
                parts.add(x)
        return not parts

    @staticmethod
    def boolean(eng, p):
        return p[0] in ("bin", "discr", "not") or p[0] in ("r", "o") and re.search(r"::(is_\w+|eq|ne)$", name_of(eng, p)) is not None

    def call(self, eng, st, ev):
        at = (ev.span, eng.chain(ev.ctx))
        if re.search(r"Map::insert$", ev.name) and len(ev.args) == 3:
            self.insert(eng, st, ev.args[1], ev.args[2], at)
        elif ev.name == "Extend::extend":
            for t in [t for t in st.mon if t[0] == "rec"]:
                if t[1] in {self.subtree(eng, x) for x in bases(ev.args[1])}:
                    drop(st, lambda x: x == t)
                    self.n.hit("subtrees listed", ev)
        elif ev.local is not None and ev.local.id == self.fn.id:
            if self.acc is not None and param(self.fn, self.acc) in roots(eng, ev.args[self.acc], mut=True):
                add(st, "accumulated")
                self.n.hit("subtrees listed", ev)
        if LOSSY.match(ev.name) and ev.args:
            for x in bases(ev.args[0]):
                if self.subtree(eng, x) is not None:
                    self.ck.bad("%s of a subtree in %s" % (last(ev.name), self.fn.short), "%s drops part of what it found (%s)" % (self.fn.pretty(), ev.name), *at)
        if re.search(r"Map::(remove|remove_entry|clear|drain|retain|split_off|pop_first|pop_last|entry)$", ev.name):
            if not ev.name.endswith("entry") or ev.name.endswith("remove_entry"):
                self.ck.bad("%s in %s" % (last(ev.name), self.fn.short), "%s drops part of what it found (%s)" % (self.fn.pretty(), ev.name), *at)

    def result(self, eng, st, ev, v):
        if ev.local is not None and ev.local.id == self.fn.id and self.acc is None:
            self.lost(eng, st, (ev.span, ()))
            add(st, "rec", ev.sid)

    def lost(self, eng, st, at):
        for t in [t for t in st.mon if t[0] == "rec"]:
            self.ck.bad("subtree lost in %s" % self.fn.short, "%s can go on without listing what it found below an entry" % self.fn.pretty(), *at)
            drop(st, lambda x: x == t)

    def item(self, eng, st, ev, it, v):
        s = self.subtree(eng, it[2][0])
        c = components(eng, it[2][0])
        if c is not None and any(self.path in roots(eng, a[0]) for a in call_args(eng, c)):
            add(st, "asked")
        if s is not None:
            if any(t[0] == "sub" for t in st.mon):
                self.ck.bad("entry of a subtree lost in %s" % self.fn.short, "%s can go on without listing an entry it found" % self.fn.pretty(), ev.span, eng.chain(ev.ctx))
            drop(st, lambda t: t[0] == "sub")
            add(st, "sub", v)

    def end(self, eng, st, ev, it):
        s = self.subtree(eng, it[2][0])
        c = components(eng, it[2][0])
        if c is not None and any(self.path in roots(eng, a[0]) for a in call_args(eng, c)) and not has(st, "asked"):
            add(st, "isroot")
        if s is not None:
            if any(t[0] == "sub" for t in st.mon):
                self.ck.bad("entry of a subtree lost in %s" % self.fn.short, "%s can go on without listing an entry it found" % self.fn.pretty(), ev.span, eng.chain(ev.ctx))
            drop(st, lambda t: t[0] == "sub" or t == ("rec", s))
            self.n.hit("subtrees listed", ev)

    def kept(self, eng, st, site, v):
        for t in [t for t in st.mon if t[0] == "sub"]:
            if t[1] in eng.origins(v):
                drop(st, lambda x: x == t)

    def fact(self, eng, st, v, val, eq):
        """Facts about the path: is this the root?"""
        if self.path in eng.origins(v):
            if v[0] in ("r", "o") and re.search(r"::is_empty$", name_of(eng, v)):
                if (val == 1) == eq:
                    add(st, "isroot")
                else:
                    add(st, "asked")
            elif not any(x[0] in ("r", "o") and re.search(r"metadata|read_dir|get_obj|is_dir|is_file", name_of(eng, x)) for x in eng.origins(v)):
                add(st, "asked")
                add(st, "isroot?")

    def done(self, eng, st, f, kinds):
        n, ck, fn = self.n, self.ck, self.fn
        self.lost(eng, st, (fn.span, ()))
        own = {t[1] for t in st.mon if t[0] == "own"}
        for k in sorted(kinds):
            n.hit("successful ends of %s" % fn.short, k)
            if not own and not (k == "Dir" and (has(st, "isroot") or has(st, "isroot?"))):
                ck.bad("%s not listed by %s" % (k, fn.short), "%s can leave out a %s" % (fn.pretty(), "directory" if k == "Dir" else "file"), fn.span)
            for x in own:
                if x is not None and x != (k == "Dir"):
                    ck.bad("%s listed as %s by %s" % (k, x, fn.short), "%s lists a %s as a %s" % (
                        fn.pretty(), "directory" if k == "Dir" else "file", "file" if k == "Dir" else "directory"), fn.span)
            if k == "Dir" and own and has(st, "unasked") and len(kinds) == 1:
                ck.bad("root listed by %s" % fn.short, "%s lists the root directory itself as an entry" % fn.pretty(), fn.span)


def walking(an, ck, n):
    top = an.fn("snapcd::dir::walk_fs_items")
    fn = an.recursive(top)
    T = Tree(an, ck, n, fn, "walked")
    R = Results(an, ck, n, fn, T.path, T.key_, T)

    def on_call(eng, st, ev):
        T.call(eng, st, ev)
        R.call(eng, st, ev)
        if ev.local is not None and ev.local.id == fn.id:
            T.descend(eng, st, ev)

    def on_result(eng, st, ev, v):
        R.result(eng, st, ev, v)

    def on_item(eng, st, ev, it, v):
        T.item(eng, st, ev, it, v)
        R.item(eng, st, ev, it, v)
        if T.key(eng, it[2][0]) == "children":
            R.lost(eng, st, (ev.span, eng.chain(ev.ctx)))

    def on_end(eng, st, ev, it):
        T.end(eng, st, ev, it)
        R.end(eng, st, ev, it)

    def on_fact(eng, st, v, val, eq):
        T.fact(eng, st, v, val, eq)
        R.fact(eng, st, v, val, eq)

    def on_ret(eng, st, f, ctx, v):
        if not outermost(eng, ctx) or okval(v) is None:
            return
        ks = T.kinds(st)
        R.done(eng, st, f, ks)
        if "Dir" in ks:
            T.ret(eng, st, f, v)
            if not T.ended(st, "children"):
                ck.bad("entries not walked", "%s can succeed for a directory without having walked its entries" % fn.pretty(), fn.span)

    m = Mon(cut=cuts(an) + [fn], on_call=on_call, on_result=on_result, on_item=on_item, on_end=on_end, on_fact=on_fact, on_ret=on_ret)
    m.kept = R.kept
    e = an.engine(m)
    ck.absorb(e, e.run(fn.id))
    T.norec()
    if top.id != fn.id:
        passon(an, ck, n, top, fn, {keyparam(top): keyparam(fn)}, pathparam(fn))


class Live:
    """The kind of what is at a path of the file system."""

    def __init__(self, an, ismeta):
        self.ismeta = ismeta

    def fact(self, eng, st, v, val, eq):
        for x in strip(eng, v):
            if x[0] in ("r", "o"):
                m = re.search(r"(Metadata|FileType|Path)::(is_dir|is_file)$", name_of(eng, x))
                if m and any(self.ismeta(eng, a[0]) for a in call_args(eng, x)):
                    yes = (val == 1) == eq
                    cur = self.kinds(st)
                    d = {"is_dir": "Dir", "is_file": "File"}[m.group(2)]
                    cur = cur & {d} if yes else cur - {d}
                    drop(st, lambda t: t[0] == "live")
                    add(st, "live", frozenset(cur))

    def kinds(self, st):
        for t in st.mon:
            if t[0] == "live":
                return t[1]
        return frozenset({"Dir", "File"})


def walkingreal(an, ck, n):
    top = an.fn("snapcd::dir::walk_real_fs_items")
    fn = an.recursive(top)
    flt = filterparam(fn)
    if flt is None:
        raise CheckError("%s has no filter" % fn.short)
    base = path = None
    ps = [i for i in range(fn.argc) if re.search(r"\bPath(Buf)?\b", fn.locals[i + 1][0]["s"]) and not RESULTMAP.search(fn.locals[i + 1][0]["s"])]
    if len(ps) != 2:
        raise CheckError("%s does not take a base and a path" % fn.short)
    base, path = param(fn, ps[0]), param(fn, ps[1])

    def here(eng, v):
        """Is v base.join(path)?"""
        xs = roots(eng, v)
        return bool(xs) and all(x[0] in ("r", "o") and re.search("::(join|push)$", name_of(eng, x)) and all(
            base in roots(eng, a[0]) and path in roots(eng, a[1]) for a in call_args(eng, x)) for x in xs)

    def ismeta(eng, v, d=0):
        for x in roots(eng, v):
            if here(eng, x):
                return True
            if x[0] in ("r", "o") and re.search(r"(^std::fs::metadata|::metadata|::file_type)$", name_of(eng, x)) and d < 4:
                if any(ismeta(eng, a[0], d + 1) for a in call_args(eng, x)):
                    return True
        return False

    R = Results(an, ck, n, fn, path, None, None)
    L = Live(an, ismeta)

    def src(eng, b):
        for x in roots(eng, b):
            if x[0] in ("r", "o") and re.search(r"^std::fs::read_dir$|^std::path::Path(Buf)?::read_dir$", name_of(eng, x)):
                return "entries"
            if x[0] in ("r", "o") and name_of(eng, x) in ("Iterator::collect",) and any(src(eng, a[0]) for a in call_args(eng, x)):
                return "entries"
        return None
    E = Each(n, ck, fn, "the entries of a directory", src, "walked", order=False)
    # closures are followed: an entry they drop is one that was skipped
    E.allowed = lambda eng, st, ev, k: ev.name in ("Iterator::filter", "Iterator::filter_map")
    recs = []

    def entry(eng, v):
        """The entries whose name v is."""
        out = set()
        for x in plain(eng, v):
            if x[0] in ("r", "o") and name_of(eng, x).endswith("DirEntry::file_name"):
                for a in call_args(eng, x):
                    out |= roots(eng, a[0])
            else:
                return None
        return out

    def on_call(eng, st, ev):
        at = (ev.span, eng.chain(ev.ctx))
        E.call(eng, st, ev)
        R.call(eng, st, ev)
        if re.search(r"^std::fs::read_dir$|^std::path::Path(Buf)?::read_dir$", ev.name):
            n.hit("directories listed", ev)
            if not here(eng, ev.args[0]):
                ck.bad("directory listed by %s" % fn.short, "%s lists %s, not the directory it is at" % (fn.pretty(), eng.show(ev.args[0])), *at)
        if ev.local is not None and ev.local.id == fn.id:
            recs.append(ev.sid)
            n.hit("entries descended into", ev)
            if base not in roots(eng, ev.args[ps[0]]):
                ck.bad("base of an entry in %s" % fn.short, "%s goes on below %s" % (fn.pretty(), eng.show(ev.args[ps[0]])), *at)
            names = joined(eng, ev.args[ps[1]], path)
            es = [entry(eng, x) for x in names or ()]
            pend = {t[2] for t in st.mon if t[0] == "pend"}
            if names is None or None in es or not all(x <= pend for x in es):
                ck.bad("path of an entry in %s" % fn.short, "%s walks %s, which is not the entry it is at" % (fn.pretty(), eng.show(ev.args[ps[1]])), *at)
            drop(st, lambda t: t[0] == "pend")

    def on_item(eng, st, ev, it, v):
        E.item(eng, st, ev, it, v)
        R.item(eng, st, ev, it, v)
        if E.key(eng, it[2][0]):
            R.lost(eng, st, (ev.span, eng.chain(ev.ctx)))

    def on_end(eng, st, ev, it):
        E.end(eng, st, ev, it)
        R.end(eng, st, ev, it)

    def on_fact(eng, st, v, val, eq):
        L.fact(eng, st, v, val, eq)
        R.fact(eng, st, v, val, eq)
        E.fact(eng, st, v, val, eq)
        for x in strip(eng, v):
            if x[0] in ("r", "o") and name_of(eng, x) == "?dyn" and (val == 0) == eq:
                for a in call_args(eng, x):
                    if len(a) > 1 and param(fn, flt) in strip(eng, a[0]):
                        n.hit("entries the filter excludes", x[1])
                        es = roots(eng, a[1])
                        drop(st, lambda t: t[0] == "pend" and t[2] in es)

    def on_ret(eng, st, f, ctx, v):
        if not outermost(eng, ctx) or okval(v) is None:
            return
        ks = L.kinds(st)
        R.done(eng, st, f, ks)
        if "Dir" in ks:
            E.ret(eng, st, f, v)
            if not E.ended(st, "entries"):
                ck.bad("entries not walked", "%s can succeed for a directory without having walked its entries" % fn.pretty(), fn.span)

    m = Mon(cut=[fn], on_call=on_call, on_result=R.result, on_item=on_item, on_end=on_end, on_fact=on_fact, on_ret=on_ret)
    def kept(eng, st, site, v):
        R.kept(eng, st, site, v)
        # entries put into a list first are found there again
        E.used(eng, st, [v])
    m.kept = kept
    e = an.engine(m)
    ck.absorb(e, e.run(fn.id))
    if not recs:
        names = {c.name for c, g, sp in an.p.callgraph()[fn.id][0] if c is not None}
        if any(re.search(r"::(pop|pop_front|pop_back)$", x) for x in names):
            ck.notes.append("%s works off a list of its own; its descent is not decided" % fn.pretty())
        else:
            ck.bad("no descent in %s" % fn.short, "%s never goes down into the entries of a directory" % fn.pretty(), fn.span)
    if top.id != fn.id:
        passon(an, ck, n, top, fn, {pathparam(top): ps[0], filterparam(top): flt}, ps[1])


def C30(an, ck):
    n = Seen()
    fetching(an, ck, n)
    walking(an, ck, n)
    walkingreal(an, ck, n)
    n.into(ck)
