"""C32: what a comparison found is shown, all of it and the right way round."""
from .trees import *
from .compare import iteration

RESULT_ = "snapcd::diff::DiffResult"
LISTS = ("added", "deleted", "modified")
PRINT = re.compile(r"^std::io::_print$|^(std::io::)?Write::(write_all|write_fmt|write)$|^std::io::(stdio::)?Stdout\w*::(write_all|write_fmt|write)$")
SEARCH = re.compile(r"^Iterator::(any|all|find|find_map|position|rposition|count|max\w*|min\w*|sum|fold|last|nth)$|^std::slice::contains$")
TEXT = re.compile(r"^std::string::String::(push_str|push|insert_str|extend|insert)$|^(std::fmt::)?Write::(write_str|write_fmt|write_char|write_all|write)$|^AddAssign::add_assign$|^Extend::extend$")
JOIN = re.compile(r"::(join|concat)$")
CUTOFF = re.compile(r"::(skip|take|step_by|nth|truncate|pop|remove|swap_remove|drain|split_off|clear|split_first|split_last|split_at|last|skip_while|take_while|map_while)$")
LINE, DIFFERENCE = "patch::ast::Line", "difference::Difference"
KEYS = {"added": ("new_key",), "deleted": ("original_key",), "modified": ("original_key", "new_key")}
SIGN = {"new_key": "+", "original_key": "-"}


def pieces(b):
    """The literal texts and placeholders of a format template, or None if it
    has anything else than plain placeholders."""
    out, i = [], 0
    while i < len(b):
        n = b[i]
        if n == 0:
            return out if i == len(b) - 1 else None
        if n < 0x80:
            out.append(b[i + 1:i + 1 + n].decode("utf8", "replace"))
            i += 1 + n
        elif n == 0xc0:
            out.append(None)
            i += 1
        else:
            return None
    return None


def raw(x):
    """The bytes of a constant text."""
    if x[1] == "bytes" and re.match(r"^([0-9a-f]{2})*$", str(x[2])):
        return bytes.fromhex(x[2])
    return str(x[2]).encode()


class Shown:
    def __init__(self, an, ck, n, fn, what, dirs, cut):
        self.an, self.ck, self.n, self.fn, self.what, self.dirs = an, ck, n, fn, what, dirs
        self.cut = cut
        self.src = None
        for i in range(fn.argc):
            if re.sub(r"^&('\w+ )?(mut )?", "", fn.locals[i + 1][0]["s"]).split("<")[0].endswith("DiffResult"):
                self.src = param(fn, i)
        if self.src is None:
            raise CheckError("%s does not take a comparison result" % fn.pretty())
        for l in LISTS:
            an.field(RESULT_, l)
        for t, f in (("Added", "is_dir"), ("Added", "new_key"), ("Deleted", "is_dir"), ("Deleted", "original_key"), ("Modified", "original_key"), ("Modified", "new_key")):
            an.field("snapcd::diff::%sDiffResult" % t, f)
            an.field("snapcd::diff::%sDiffResult" % t, "path")
        self.sign = {}           # (type, field) -> {sign: place it was seen}
        self.placed = set()       # (type, field, sign it is printed after, place)
        self.ends = 0

    def bad(self, key, msg, ev, eng=None):
        self.ck.bad("%s: %s" % (self.fn.short, key), msg, ev.span if hasattr(ev, "span") else ev,
                    eng.chain(ev.ctx) if eng and hasattr(ev, "ctx") else ())

    # -- sequences
    def lists(self, eng, v):
        """The source list v is."""
        for x in roots(eng, v, mut=True):
            for l in LISTS:
                if x == mk("f", self.src, l):
                    return l
        return None

    def holder(self, eng, v):
        for _ in range(20):
            if v[0] in ("mut", "conv"):
                v = v[1]
                continue
            xs = roots(eng, v)
            if len(xs) != 1:
                return None
            x = next(iter(xs))
            if x == v:
                break
            v = x
        if v[0] == "f" and v[1][0] == "agg" and isinstance(v[2], str):
            return None
        if v[0] in ("r", "o"):
            if re.search(r"::(iter|into_iter|as_slice|iter_mut|by_ref|deref|deref_mut|into_boxed_slice|as_mut_slice|drain|index|index_mut)$", name_of(eng, v)):
                for a in call_args(eng, v):
                    return self.holder(eng, a[0])
            return v[1]
        return None

    def seq(self, eng, st, b):
        l = self.lists(eng, b)
        if l:
            return ("src", l), l, ("path",)
        h = self.holder(eng, b)
        for t in st.mon:
            if t[0] == "held" and t[1] == h:
                return ("list", h), t[3], t[2]
        return None

    def elems(self, st):
        return [t for t in st.mon if t[0] == "el"]

    def pathof(self, v, proj):
        for p in proj:
            v = mk("f", v, p)
        return v

    def within_(self, eng, st, v):
        """The elements whose path v holds: [(token, where in v)]"""
        out = []
        o = None
        for t in self.elems(st):
            p = self.pathof(t[2], t[4])
            o = eng.origins(v) if o is None else o
            if p in o or t[2] in eng.origins(v, stop=lambda x: x[0] == "f" or x[0] in ("r", "o") and x != t[2]):
                out.append((t, self.where(eng, v, t[2], p, t[4])))
        return out

    def where(self, eng, v, e, p, proj):
        if e in roots(eng, v):
            return proj
        if v[0] == "agg":
            for i, y in enumerate(v[3]):
                if p in eng.origins(y):
                    name = self.an.adts[v[1]]["v"][v[2]][1][i][0] if v[1] in self.an.adts else i
                    name = int(name) if str(name).isdigit() else name
                    return (name,) + self.where(eng, y, e, p, proj)
        return ()

    def use(self, eng, st, t):
        drop(st, lambda x: x[0] == "pend" and x[2] == t[2])

    # -- events
    def on_item(self, eng, st, ev, it, v):
        if SEARCH.match(ev.name) and not re.search(r"(all|fold)$", ev.name):
            I = v[1] if v[0] in ("r", "o") else None
            q = self.seq(eng, st, it[2][0])
            if q:
                drop(st, lambda t: t[0] == "el" and t[1] == I)
                add(st, "el", I, v, q[1], q[2], q[0])
            return
        I = v[1] if v[0] in ("r", "o") else None
        if I is None:
            return
        self.over(eng, st, I)
        q = self.seq(eng, st, it[2][0])
        if q:
            k, l, proj = q
            self.n.hit("lists of differences gone through", ev)
            add(st, "iter", k)
            add(st, "el", I, v, l, proj, k)
            add(st, "pend", I, v, k)
        else:
            self.line_item(eng, st, ev, it, v, I)

    def over(self, eng, st, I):
        """The element at hand of iteration I is done with."""
        for t in [t for t in st.mon if t[0] == "pend" and t[1] == I]:
            add(st, "missed", I, t[3])
        gone = {t[2] for t in st.mon if t[0] == "el" and t[1] == I}
        drop(st, lambda t: t[0] in ("pend", "el") and t[1] == I or t[0] == "isfile" and t[1] in gone)
        for t in [t for t in st.mon if t[0] == "line" and t[1] == I]:
            self.bad("line left out", "%s can leave out a line of what is %s" % (self.what, t[3]), t[4])
        drop(st, lambda t: t[0] == "line" and t[1] == I)

    def on_end(self, eng, st, ev, it):
        I = iteration(eng, ev, it) if not SEARCH.match(ev.name) else None
        q = self.seq(eng, st, it[2][0])
        if I is not None:
            self.over(eng, st, I)
        if q and not SEARCH.match(ev.name):
            k = q[0]
            if not any(t[0] == "missed" and t[1] == I for t in st.mon):
                add(st, "done", k)
        if I is not None:
            drop(st, lambda t: t[0] == "missed" and t[1] == I)

    def on_fact(self, eng, st, v, val, eq):
        truth = (val == 1) == eq
        if v[0] == "discr":
            zero = (val == 0) == eq
            for t in self.elems(st):
                for x in roots(eng, v[1]) | {v[1]}:
                    if self.dirs and t[3] != "modified" and any(x == mk("f", t[2], k) for k in KEYS[t[3]]) and (
                            zero if val in (0, 1) else False):
                        self.use(eng, st, t)
            for x in roots(eng, v[1]) | {v[1]}:
                if x[0] in ("r", "o") and re.search(r"Path::strip_prefix$", name_of(eng, x)) and zero:
                    self.prefix(eng, st, x)
                # a line of a line-by-line comparison
                if eq and name_of(eng, x) == "next":
                    for a in call_args(eng, x):
                        s = self.sides(eng, a[0], r"^diff::(lines|slice|chars)$")
                        if s:
                            add(st, *(("saw", s[0 if val == 0 else 1]) if val in (0, 2) else ("saw0",)))
            return
        for x in roots(eng, v):
            if x[0] in ("r", "o") and truth:
                if EMPTY.match(name_of(eng, x)):
                    for a in call_args(eng, x):
                        q = self.seq(eng, st, a[0])
                        if q:
                            add(st, "done", q[0])
                elif re.search(r"Path::starts_with$", name_of(eng, x)):
                    self.prefix(eng, st, x)
        for t in self.elems(st):
            if v == mk("f", t[2], "is_dir"):
                if truth:
                    if self.dirs:
                        self.use(eng, st, t)
                else:
                    add(st, "isfile", t[2])

    def prefix(self, eng, st, x):
        """x: one path is below another."""
        for a in call_args(eng, x):
            for t in self.elems(st):
                if t[5][0] != "src" or self.pathof(t[2], t[4]) not in roots(eng, a[0]):
                    continue
                for u in self.elems(st):
                    if u[5][0] == "list" and u[3] == t[3] and self.pathof(u[2], u[4]) in roots(eng, a[1]):
                        self.n.hit("differences left out below a shown one", t[3])
                        self.use(eng, st, t)

    def keep(self, eng, st, h, v, ev):
        """v is put into the list h."""
        self.line_used(eng, st, v)
        if h is None:
            return
        for t, w in self.within_(eng, st, v):
            self.n.hit("differences passed on", ev.name if hasattr(ev, "name") else "", str(getattr(ev, "span", "")))
            self.use(eng, st, t)
            add(st, "held", h, w, t[3])
            drop(st, lambda x: x[0] == "done" and x[1] == ("list", h))
            self.counts(eng, st, v, t, ev)

    def on_call(self, eng, st, ev):
        nm = ev.name
        if ev.local is not None and ev.local.id == self.cut[0].id:
            self.read(eng, st, ev)
        if PUSH.match(nm) and len(ev.args) >= 2 and ev.args[-1][0] != "it" and not TEXT.match(nm):
            self.keep(eng, st, self.holder(eng, ev.args[0]), ev.args[-1], ev)
        elif PRINT.match(nm) and nm != "Write::write_fmt":
            self.shown(eng, st, ev, ev.args)
        elif TEXT.match(nm) and len(ev.args) >= 2:
            h = self.holder(eng, ev.args[0])
            for t, w in self.within_(eng, st, ev.args[-1]):
                self.use(eng, st, t)
                if h is not None and "Stdout" not in ((eng.sites[h].dty or {}).get("s", "") if h in eng.sites else ""):
                    add(st, "held", h, (), t[3])
                    drop(st, lambda x: x[0] == "done" and x[1] == ("list", h))
            self.line_used(eng, st, ev.args[-1])
        elif nm == "difference::Changeset::new" or re.match(r"^diff::(lines|slice|chars)$", nm):
            drop(st, lambda t: t[0] in ("saw", "saw0"))
            if len(ev.args) >= 2:
                s = [self.keyof(eng, st, a) for a in ev.args[:2]]
                self.n.hit("contents compared line by line", ev)
                if s[0] and s[0] == s[1]:
                    self.bad("contents with themselves", "%s compares %s with itself" % (self.what, s[0].replace("_", " ")), ev, eng)
        if LOSSY.match(nm) and ev.args and CUTOFF.search(nm):
            for b in bases(ev.args[0]):
                q = self.seq(eng, st, b)
                if q:
                    self.bad("%s of %s" % (last(nm), q[1]), "%s drops some of what is %s (%s)" % (self.what, q[1], nm), ev, eng)
        if nm not in ("std::vec::Vec::len", "std::slice::len") and not EMPTY.match(nm) and not PUSH.match(nm) and not nm.startswith("std::fmt::rt::Argument::new_debug"):
            for l in LISTS:
                if not has(st, "touched", ("src", l)) and any(mk("f", self.src, l) in eng.origins(a) for a in ev.args):
                    add(st, "touched", ("src", l))

    def kept(self, eng, st, site, v):
        class E:
            span, ctx, name = site.span, site.ctx, site.name
        h = site.sid
        if site.name in ("Extend::extend", "Iterator::for_each"):
            hs = {self.holder(eng, a[0]) for a in site.args if len(a) >= 2} - {None} if site.name == "Extend::extend" else ()
            h = hs.pop() if len(hs) == 1 else None
        if SEARCH.match(site.name):
            return
        self.keep(eng, st, h, v, E)

    def shown(self, eng, st, ev, args):
        """Something is printed."""
        o = set()
        for a in args:
            o |= eng.origins(a)
        hit = False
        for t in self.elems(st):
            if self.pathof(t[2], t[4]) in o:
                hit = True
                self.n.hit("differences shown", ev)
                self.use(eng, st, t)
                for u in st.mon:
                    if u[0] == "head" and u[1] != t[3]:
                        self.bad("%s under %s" % (t[3], u[1]), "%s can list what is %s under the heading for what is %s" % (self.what, t[3], u[1]), ev, eng)
                self.places(eng, st, args, t, ev)
        for t in [t for t in st.mon if t[0] == "held"]:
            # the whole text or list at once
            if mk("r", t[1]) in o or mk("o", t[1]) in o:
                if not any(u[5] == ("list", t[1]) for u in self.elems(st)):
                    hit = True
                    self.n.hit("texts of differences shown", ev)
                    add(st, "done", ("list", t[1]))
        if not hit:
            words = {l for x in o if x[0] == "c" and x[1] in ("str", "bytes") for l in LISTS if l in self.text(x)}
            if len(words) == 1:
                drop(st, lambda t: t[0] == "head")
                add(st, "head", words.pop())
            elif words:
                drop(st, lambda t: t[0] == "head")

    @staticmethod
    def text(x):
        return raw(x).decode("utf8", "replace")

    # -- counts of lines
    def counts(self, eng, st, v, t, ev):
        """v is the record of line counts of an element."""
        if v[0] != "agg" or t[5][0] != "src" or v[1] not in self.an.adts:
            return
        fs = self.an.adts[v[1]]["v"][v[2]][1]
        ints = [(fs[i][0], y) for i, y in enumerate(v[3]) if re.match(r"^[ui](size|\d+)$", fs[i][1])]
        if len(ints) < 2:
            return
        self.n.hit("line counts recorded", getattr(ev, "name", ""), str(getattr(ev, "span", "")), t[3])
        zero = lambda y: y[0] == "c" and y[1] == "int" and y[2] == 0
        at = (str(getattr(ev, "span", self.fn.span)))

        def mark(name, s):
            self.sign.setdefault((v[1], name), {}).setdefault(s, at)
        if t[3] != "modified":
            k = KEYS[t[3]][0]
            s = SIGN[k]
            got = [name for name, y in ints if mk("f", t[2], k) in eng.origins(y)]
            if not got:
                if all(y[0] == "c" for _, y in ints):
                    self.bad("no lines of %s" % t[3], "%s can show a file that was %s with the constant line counts %s" % (
                        self.what, t[3], ", ".join(str(y[2]) for _, y in ints)), ev, eng)
                return
            for name, y in ints:
                if name in got:
                    mark(name, s)
                elif zero(y):
                    mark(name, "-" if s == "+" else "+")
                elif y[0] == "c":
                    self.bad("lines of %s" % t[3], "%s counts %s lines on the other side of a file that was %s" % (self.what, y[2], t[3]), ev, eng)
            if len(got) > 1:
                self.bad("lines of %s counted twice" % t[3], "%s counts the lines of a file that was %s as both added and removed" % (self.what, t[3]), ev, eng)
            return
        saw = {x[1] for x in st.mon if x[0] == "saw"}
        sums = all(zero(y) or name_of(eng, y).startswith("bin:Add") for _, y in ints)
        if not sums:
            return
        for name, y in ints:
            for c in (b for z in eng.origins(y) if name_of(eng, z).startswith("bin:Add") for a in call_args(eng, z) for b in a):
                if c[0] == "c" and c[1] == "int" and c[2] not in (0, 1):
                    self.bad("count in steps", "%s counts a line as %s" % (self.what, c[2]), ev, eng)
        if len(saw) == 1:
            s = saw.copy().pop()
            o = "-" if s == "+" else "+"
            for name, y in ints:
                mark(name, o if zero(y) else s)
        elif not saw:
            for name, y in ints:
                if not zero(y) and any(x[0] == "saw0" for x in st.mon):
                    self.bad("unchanged lines counted", "%s can count a line both sides have" % self.what, ev, eng)

    def places(self, eng, st, args, t, ev):
        """Which count is printed after which sign."""
        if t[5][0] != "list":
            return
        for a in args:
            for x in [a] + [y for y in eng.origins(a) if y[0] in ("r", "o") and re.search(r"^std::fmt::Arguments::new", name_of(eng, y))]:
                if name_of(eng, x) != "std::fmt::Arguments::new":
                    continue
                for b in call_args(eng, x):
                    tpl = b[0]
                    for y in strip(eng, b[0]):
                        tpl = y
                    if len(b) < 2 or tpl[0] != "c" or tpl[1] != "bytes":
                        continue
                    ps = pieces(raw(tpl))
                    arr = next((y for y in strip(eng, b[1]) if y[0] == "agg"), None)
                    if not ps or arr is None or ps.count(None) != len(arr[3]):
                        continue
                    i = 0
                    for j, p in enumerate(ps):
                        if p is not None:
                            continue
                        s = ps[j - 1][-1:] if j and ps[j - 1] else ""
                        if s in "+-" and s:
                            for z in eng.origins(arr[3][i]):
                                if z[0] == "f" and z[1] == t[2] and isinstance(z[2], str):
                                    self.placed.add((z[2], s, ev.span))
                        i += 1

    # -- contents
    def keyof(self, eng, st, v):
        """Which key's contents v is: the name of the field, or None."""
        o = eng.origins(v)
        got = {k for t in self.elems(st) for k in KEYS.get(t[3], ()) if mk("f", t[2], k) in o and t[5][0] == "src"}
        return got.pop() if len(got) == 1 else None

    def sides(self, eng, v, rx):
        """The signs of (first, second) of the comparison v comes from."""
        for x in eng.origins(v):
            if x[0] in ("r", "o") and re.search(rx, name_of(eng, x)):
                for a in call_args(eng, x):
                    s = []
                    for y in a[:2]:
                        ks = {z[2] for z in eng.origins(y) if z[0] == "f" and z[2] in SIGN}
                        s.append(SIGN[ks.pop()] if len(ks) == 1 else None)
                    if None not in s and s[0] != s[1]:
                        return s
        return None

    def read(self, eng, st, ev):
        self.n.hit("contents read for showing", ev)
        for k in ev.args:
            for x in roots(eng, k):
                if x[0] == "f" and x[2] in SIGN:
                    for t in self.elems(st):
                        if x[1] == t[2] and t[3] != "modified" and not has(st, "isfile", t[2]):
                            self.bad("directory of %s read" % t[3], "%s can read the contents of a directory that was %s" % (self.what, t[3]), ev, eng)

    def line_item(self, eng, st, ev, it, v, I):
        base = it[2][0]
        if not (isinstance(it[3], str) and it[3].endswith("&str")):
            return
        for t in self.elems(st):
            if t[5][0] == "src" and t[3] != "modified" and self.dirs == "patch" and any(mk("f", t[2], k) in eng.origins(base) for k in KEYS[t[3]]):
                add(st, "line", I, v, t[3], str(ev.span))

    def line_used(self, eng, st, v):
        o = None
        for t in [t for t in st.mon if t[0] == "line"]:
            o = eng.origins(v) if o is None else o
            if t[2] in o:
                st.mon = st.mon - {t}

    def on_agg(self, eng, st, adt, var, a, span, ctx):
        if adt not in (LINE, DIFFERENCE) or a[0] != "agg" or not a[3]:
            return

        class E:
            pass
        E.span, E.ctx = span, ctx
        want = {"Add": "+", "Remove": "-", "Rem": "-", "Context": " ", "Same": " "}
        name = self.an.adts[adt]["v"][var][0] if adt in self.an.adts else {LINE: ("Add", "Remove", "Context"), DIFFERENCE: ("Same", "Add", "Rem")}[adt][var]
        sign = want.get(name)
        self.n.hit("lines of patches made", str(span), adt, var)
        difs = set()

        def stop(x):
            if x[0] == "v" and x[3] == 0 and self.sides(eng, x[1], r"^difference::Changeset::new$|^diff::(lines|slice)$"):
                difs.add(x)
                return True
            return False
        o = eng.origins(a[3][0], stop=stop)
        for x in difs:
            s = self.sides(eng, x[1], r"^difference::Changeset::new$")
            if s:
                is_ = {0: " ", 1: s[1], 2: s[0]}.get(x[2])
            else:
                s = self.sides(eng, x[1], r"^diff::(lines|slice)$")
                is_ = {0: s[0], 1: " ", 2: s[1]}.get(x[2])
            if adt == DIFFERENCE and s != ["-", "+"]:
                continue
            if is_ and sign and is_ != sign:
                words = {"+": "only the new side has", "-": "only the old side has", " ": "both sides have"}
                self.bad("%s for %s" % (name, words[is_]), "%s can show a line %s as one %s" % (self.what, words[is_], words[sign]), E, eng)
        if not difs and adt == LINE:
            ks = {z[2] for z in o if z[0] == "f" and z[2] in SIGN}
            if len(ks) == 1 and sign and any(t[5][0] == "src" and t[3] != "modified" for t in self.elems(st)):
                k = ks.pop()
                if SIGN[k] != sign:
                    self.bad("%s for a line of the %s" % (name, k), "%s can show the lines of what was %s as %s" % (
                        self.what, "added" if k == "new_key" else "deleted", {"+": "added", "-": "removed", " ": "unchanged"}[sign]), E, eng)

    # -- the end
    def on_ret(self, eng, st, f, ctx, v):
        if not outermost(eng, ctx) or okval(v) is None:
            return
        self.ends += 1
        for I in {t[1] for t in st.mon if t[0] == "pend"}:
            self.over(eng, st, I)
        for l in LISTS:
            self.check(st, ("src", l), l, "what is %s" % l)
        for t in st.mon:
            if t[0] == "held":
                self.check(st, ("list", t[1]), t[3], "what it has gathered of what is %s" % t[3])

    def check(self, st, k, l, what):
        if has(st, "done", k):
            self.n.hit("lists shown to the end", k[0], l)
            return
        if has(st, "iter", k):
            self.bad("%s not all shown" % what, "%s can leave out some of %s" % (self.what, what), self.fn.span)
        elif k[0] == "list":
            self.bad("%s not shown" % what, "%s can end without showing %s" % (self.what, what), self.fn.span)
        elif not has(st, "touched", k):
            self.bad("%s not shown" % what, "%s can end without showing %s" % (self.what, what), self.fn.span)
        else:
            self.ck.notes.append("%s: how %s is gone through was not recognised; whether all of it is shown is not decided" % (self.what, what))

    def run(self):
        m = Mon(cut=self.cut, on_call=self.on_call, on_item=self.on_item, on_end=self.on_end, on_fact=self.on_fact, on_ret=self.on_ret, on_agg=self.on_agg)
        m.kept = self.kept
        e = self.an.engine(m)
        self.ck.absorb(e, e.run(self.fn.id))
        if not self.ends:
            raise CheckError("%s never ends" % self.fn.pretty())
        for (adt, f), ss in sorted(self.sign.items()):
            if len(ss) > 1:
                self.bad("%s of %s" % (f, last(adt)), "%s records lines only the new side has and lines only the old side has in the same count (%s.%s)" % (
                    self.what, last(adt), f), ss.get("-"))
            for g, s, at in sorted(self.placed):
                if g == f and len(ss) == 1 and s not in ss:
                    self.bad("%s after %s" % (f, s), "%s prints the lines %s after a %s" % (
                        self.what, {"+": "only the new side has", "-": "only the old side has"}[next(iter(ss))], s), at)


def Given(an, ck, n):
    """Every command that compares shows what was found."""
    cmp_ = an.fn("snapcd::diff::compare")
    prints = [an.fn("snapcd::diff::" + x) for x in ("print_diff_result", "print_stat_diff_result", "print_patch_diff_result")]
    ids = {f.id for f in prints}
    empty = an.p.fn("snapcd::diff::diff_result_empty")
    cg = an.p.callgraph()
    for name, h in sorted(an.handlers.items()):
        if cmp_.id not in an.p.reachable([h.id]) or h.id in {g.id for g in an.groups.values()}:
            continue
        ends = []

        def on_result(eng, st, ev, v):
            if ev.local is not None and ev.local.id == cmp_.id:
                n.hit("comparisons made by commands", name, str(ev.span))
                drop(st, lambda t: t[0] == "found")
                add(st, "found", v, str(ev.span))

        def on_call(eng, st, ev):
            if ev.local is not None and ev.local.id in ids:
                n.hit("comparisons shown by commands", name, str(ev.span))
                o = set()
                for a in ev.args:
                    o |= eng.origins(a)
                drop(st, lambda t: t[0] == "found" and t[1] in o)

        def on_fact(eng, st, v, val, eq):
            if (val == 1) == eq:
                for x in roots(eng, v):
                    if x[0] in ("r", "o") and empty is not None and getattr(eng.sites[x[1]].callee, "id", None) == empty.id:
                        for a in call_args(eng, x):
                            drop(st, lambda t: t[0] == "found" and t[1] in eng.origins(a[0]))
            elif v[0] == "discr":
                for t in list(st.mon):
                    if t[0] == "found" and t[1] == v[1] and (val == 1) == eq:
                        st.mon = st.mon - {t}
            if v[0] == "discr" and (val == 1) == eq:
                drop(st, lambda t: t[0] == "found" and t[1] == v[1])

        def on_ret(eng, st, f, ctx, v):
            if not outermost(eng, ctx) or okval(v) is None:
                return
            for t in st.mon:
                if t[0] == "found" and t[1] not in eng.origins(v):
                    ck.bad("%s: found but not shown" % name, "%s can compare and succeed without showing what was found" % f.pretty(), t[2])
            ends.append(1)
        e = an.engine(Mon(cut=[cmp_] + prints + ([empty] if empty is not None else []), on_result=on_result, on_call=on_call, on_fact=on_fact, on_ret=on_ret))
        ck.absorb(e, e.run(h.id))


def C32(an, ck):
    n = Seen()
    rd = an.fn("snapcd::file::read_data")
    for f, what, dirs in (("print_diff_result", "the list of differences", False), ("print_stat_diff_result", "the line statistics", "stat"),
                          ("print_patch_diff_result", "the patch", "patch")):
        Shown(an, ck, n, an.fn("snapcd::diff::" + f), what, dirs, [rd]).run()
    Given(an, ck, n)
    n.into(ck)
