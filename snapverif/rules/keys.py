"""C17: the forms of a key, and (for C16) how a text names a ref."""
from .trees import *
from .shown import raw, pieces

KEY, KEYISH = "snapcd::key::Key", "snapcd::keyish::Keyish"
VECPUT = re.compile(r"^std::vec::Vec::(push|extend_from_slice|append|insert)$|^Extend::extend$|^std::string::String::(push|push_str|insert|insert_str)$|^AddAssign::add_assign$|^(std::io::)?Write::write_all$|^(std::fmt::)?Write::(write_str|write_char)$")
FULL = re.compile(r"RangeFull")


def letter(eng, v):
    """The number or single character a constant is, or None."""
    for x in strip(eng, v):
        if x[0] == "c" and x[1] == "bytes" and len(raw(x)) == 1:
            return raw(x)[0]
    return number(eng, v)


def number(eng, v, d=0):
    """The value of a constant expression, or None."""
    if d > 6:
        return None
    if v[0] == "c" and v[1] == "int":
        return v[2]
    for x in roots(eng, v):
        if x[0] == "c" and x[1] == "int":
            return x[2]
        m = re.match(r"^bin:(Add|Sub|Mul|Div)", name_of(eng, x))
        if m:
            out = set()
            for a in call_args(eng, x):
                p, q = number(eng, a[0], d + 1), number(eng, a[1], d + 1)
                if p is None or q is None or m.group(1) == "Div" and not q:
                    return None
                out.add({"Add": p + q, "Sub": p - q, "Mul": p * q, "Div": p // q if q else 0}[m.group(1)])
            return out.pop() if len(out) == 1 else None
    return None


def inclusive(eng, r):
    """(start, last) of a range that includes its end."""
    if r[0] in ("r", "o") and name_of(eng, r).endswith("RangeInclusive::new"):
        for a in call_args(eng, r):
            return a
    if r[0] == "agg" and r[1].endswith("RangeToInclusive"):
        return None, r[3][0]
    return None


def span_of(r):
    """(start, end) of a range value: numbers, terms or None."""
    if r[0] != "agg" or "Range" not in r[1]:
        return None
    n = r[1].split("::")[-1]
    if n == "RangeFull":
        return None, None
    if n == "RangeFrom":
        return r[3][0], None
    if n == "RangeTo":
        return None, r[3][0]
    if n == "Range":
        return r[3][0], r[3][1]
    return None


class Pieces:
    """What a byte vector or a text is put together from, in order."""

    def __init__(self, eng, one):
        self.eng, self.one = eng, one         # one(eng, st, term) -> item or None

    def start(self, v):
        """(holder, items) of a sequence a value begins as."""
        eng = self.eng
        while v[0] in ("mut", "conv"):
            v = v[1]
        return v

    def holder(self, v):
        h = self.start(v)
        rs = [self.start(y) for y in roots(self.eng, h)]
        return rs[0] if len(rs) == 1 else h

    def flat(self, st, v, d=0):
        """The items of value v."""
        eng = self.eng
        b = v
        while b[0] == "mut":
            b = b[1]
        held = {b, self.holder(v)}
        for t in st.mon:
            if t[0] == "seq" and t[1] in held:
                return t[2]
        i = self.one(eng, st, v)
        if i is not None:
            return (i,)
        if d > 8:
            return ("?",)
        if v[0] == "conv":
            return self.flat(st, v[1], d + 1)
        if b[0] == "c" and b[1] == "int":
            return (("c", b[2]),)
        if b[0] == "c" and b[1] == "bytes":
            return tuple(("c", x) for x in raw(b))
        if b[0] == "agg" and re.match(r"^(\[|array|core::array|slice)", str(b[1])):
            return sum((self.flat(st, x, d + 1) for x in b[3]), ())
        if b[0] in ("r", "o"):
            nm = name_of(eng, b)
            for a in call_args(eng, b):
                if re.search(r"::(new|with_capacity|default)$", nm) and re.search(r"Vec|String", nm + str((eng.sites[b[1]].dty or {}).get("s", ""))) and not a[0:1] or re.search(r"^std::(vec::Vec|string::String)::(new|with_capacity)$", nm):
                    return ()
                if re.search(r"::(concat|must_use|into_vec|to_vec|into_boxed_slice|new|box_new|into_iter|iter|copied|cloned|into_string|to_string|to_owned|as_str|as_bytes|deref|as_ref|as_slice|into|from)$", nm) and len(a) == 1:
                    return self.flat(st, a[0], d + 1)
                if nm == "std::fmt::format" or nm == "ToString::to_string":
                    return self.flat(st, a[0], d + 1)
                if nm == "std::fmt::Arguments::new" and len(a) >= 2:
                    tpl = next(iter(strip(eng, a[0])))
                    arr = next((y for y in strip(eng, a[1]) if y[0] == "agg"), None)
                    ps = pieces(raw(tpl)) if tpl[0] == "c" else None
                    if not ps or arr is None or ps.count(None) != len(arr[3]):
                        return ("?",)
                    out, i = (), 0
                    for p in ps:
                        if p is None:
                            out += self.flat(st, arr[3][i], d + 1)
                            i += 1
                        else:
                            out += tuple(("c", x) for x in p.encode())
                    return out
                if re.search(r"Argument::new_display$", nm):
                    return self.flat(st, a[0], d + 1)
                if nm == "std::fmt::Arguments::from_str" or nm == "std::fmt::Arguments::new_const":
                    return self.flat(st, a[0], d + 1)
        xs = strip(eng, v)
        if len(xs) == 1 and xs != {v}:
            return self.flat(st, next(iter(xs)), d + 1)
        return ("?",)

    def put(self, st, ev):
        nm = ev.name
        if not VECPUT.match(nm) or len(ev.args) < 2:
            return
        b = ev.args[0]
        have = self.flat(st, b)
        h = self.holder(b)
        if nm.endswith(("::insert", "::insert_str")):
            i = number(self.eng, ev.args[1])
            new = self.flat(st, ev.args[2])
            seq = new + have if i == 0 else ("?",)
        elif ev.args[-1][0] == "it":
            bs = bases(ev.args[-1])
            kinds = {k for k in self.kinds(ev.args[-1])}
            new = self.flat(st, bs[0]) if len(bs) == 1 else ("?",)
            if not kinds <= {"src", "copied", "cloned"}:
                new = (("part", "some of the bytes"),) if kinds & {"rev", "skip", "take", "step_by", "filter"} and known(new) else ("?",)
            seq = have + new
        else:
            new = self.flat(st, ev.args[-1])
            seq = have if new == have[-1:] and self.each(ev.args[-1]) else have + new
        if len(seq) > 8:
            seq = ("?",)
        drop(st, lambda t: t[0] == "seq" and t[1] == h)
        add(st, "seq", h, seq)

    def each(self, v):
        """Is v what a loop takes from a sequence?"""
        return any(name_of(self.eng, x) == "next" for x in strip(self.eng, v))

    def kinds(self, it):
        out = {it[1]}
        for y in it[2]:
            if isinstance(y, tuple) and y and y[0] == "it":
                out |= self.kinds(y)
        return out

    def kept(self, st, site, v):
        """Collected from an iterator."""
        if site.name in ("Extend::extend",):
            return
        h = mk("r", site.sid)
        for t in st.mon:
            if t[0] == "seq" and t[1] == h:
                have = t[2]
                break
        else:
            have = ()
        i = self.flat(st, v)
        seq = have + i
        if i and have[-1:] == i and i[0][0] == "bytes":
            seq = have
        if len(seq) > 8:
            seq = ("?",)
        drop(st, lambda t: t[0] == "seq" and t[1] == h)
        add(st, "seq", h, seq)


def payload(eng, v, base):
    """("bytes", variant) if v is the whole of what variant of base holds, ("part",) if a part of it."""
    for x in strip(eng, v):
        y = x
        while y[0] == "mut":
            y = y[1]
        if y[0] == "v" and y[3] == 0 and base in roots(eng, y[1]) | {y[1]}:
            return ("bytes", y[2])
        if name_of(eng, y) == "next":
            for a in call_args(eng, y):
                for b in bases(a[0]):
                    p = payload(eng, b, base)
                    if p:
                        return p
        if y[0] in ("r", "o") and re.search(r"^Index::index$|::(get|get_unchecked|split_at|chunks|first|last|split_first|split_last|take|skip)$", name_of(eng, y)):
            for a in call_args(eng, y):
                p = payload(eng, a[0], base)
                if p:
                    return ("part", eng.show(y))
        if y[0] == "f" and y[2] == "[]" and payload(eng, y[1], base):
            return ("part", eng.show(y))
        if y[0] == "f" and y[2] in (0, 1, "0", "1"):
            p = payload(eng, y[1], base)
            if p:
                return p
    return None


def known(seq):
    return "?" not in seq


def say(seq):
    return " ".join("the bytes" if i[0] == "bytes" else "the text of the bytes" if i[0] == "b32" else "a part of the bytes" if i[0] == "part" else str(i[1]) if i[0] == "c" else "?" for i in seq) or "nothing"


def build(an, ck, n, fn, what, text):
    """variant -> what stands before its bytes, in the form fn makes of a key."""
    self_ = param(fn, 0)
    b32 = an.fn("snapcd::base32::to_base32")
    table = {}

    def one(eng, st, v):
        if text:
            for x in strip(eng, v):
                while x[0] == "mut":
                    x = x[1]
                if x[0] in ("r", "o") and getattr(eng.sites[x[1]].callee, "id", None) == b32.id:
                    for a in call_args(eng, x):
                        p = payload(eng, a[0], self_)
                        return ("b32", p[1]) if p and p[0] == "bytes" else p or "?"
                if x[0] in ("r", "o") and name_of(eng, x) == "Index::index" and any(eng.sites[y[1]].callee.id == b32.id for y in eng.origins(x) if y[0] in ("r", "o") and hasattr(eng.sites[y[1]].callee, "id")):
                    return ("part", eng.show(x))
            return None
        return payload(eng, v, self_)
    P = [None]

    def on_call(eng, st, ev):
        P[0].put(st, ev)

    def kept(eng, st, site, v):
        P[0].kept(st, site, v)

    def on_item(eng, st, ev, it, v):
        if payload(eng, it[2][0], self_):
            add(st, "some")

    def on_end(eng, st, ev, it):
        if payload(eng, it[2][0], self_) and not has(st, "some"):
            add(st, "none")                   # there are no bytes: not a case

    def on_ret(eng, st, f, ctx, v):
        if not outermost(eng, ctx) or has(st, "none"):
            return
        seq = P[0].flat(st, v)
        n.hit("forms of a key made", what, repr(seq))
        if not known(seq):
            ck.notes.append("how %s is put together was not recognised" % what)
            return
        w = "b32" if text else "bytes"
        vs = {i[1] for i in seq if i[0] == w}
        if len(vs) != 1 or seq[-1][0] != w or [i[0] for i in seq].count(w) != 1 or any(i[0] != "c" for i in seq[:-1]):
            ck.bad("%s" % what, "%s is made of %s; it must be the type followed by all of the bytes" % (what, say(seq)), fn.span)
            return
        i = vs.pop()
        pre = tuple(x[1] for x in seq[:-1])
        if table.setdefault(i, pre) != pre:
            ck.bad("%s ambiguous" % what, "%s can begin with %s or %s for the same type" % (what, table[i], pre), fn.span)
    m = Mon(cut=[b32], on_call=on_call, on_ret=on_ret, on_item=on_item, on_end=on_end)
    m.kept = kept
    e = an.engine(m)
    P[0] = Pieces(e, one)
    ck.absorb(e, e.run(fn.id))
    seen = {}
    for i, pre in sorted(table.items()):
        if len(pre) != 1:
            ck.bad("%s type" % what, "%s begins with %d bytes for its type, not one" % (what, len(pre)), fn.span)
        if pre in seen:
            ck.bad("%s same type" % what, "%s begins with the same type for two kinds of hash" % what, fn.span)
        seen[pre] = i
    return {i: pre[0] for i, pre in table.items() if len(pre) == 1}


class First:
    """The first byte (or character) of the input, the rest of it, and lengths."""

    def __init__(self, src):
        self.src = src

    def whole(self, eng, v):
        for x in roots(eng, v):
            while x[0] == "mut":
                x = x[1]
            if x == self.src:
                return True
            if x[0] in ("r", "o") and re.search(r"::(chars|bytes|as_bytes|char_indices|iter|as_str)$", name_of(eng, x)) and any(self.whole(eng, a[0]) for a in call_args(eng, x)):
                return True
        return False

    def first(self, eng, v):
        for x in roots(eng, v):
            for c, i in elem(eng, x):
                if i is not None and number(eng, i) == 0 and self.whole(eng, c):
                    return True
            if x[0] == "f" and x[2] in (0, "0"):
                for y in roots(eng, x[1]):
                    if re.search(r"::split_first$", name_of(eng, y)) and any(self.whole(eng, a[0]) for a in call_args(eng, y)):
                        return True
                    if re.search(r"::split_at$", name_of(eng, y)) and any(self.whole(eng, a[0]) and number(eng, a[1]) == 1 for a in call_args(eng, y)):
                        return True
            if name_of(eng, x) in ("next", "Iterator::next"):
                for a in call_args(eng, x):
                    if any(self.whole(eng, b) for b in bases(a[0])):
                        return True
        return False

    def rest(self, eng, v):
        """(start, end) of the part of the input v is, or None."""
        if v[0] == "f" and v[2] == "[..]":
            return (v[3], None) if self.whole(eng, v[1]) and v[5] and not v[4] else ("?", None)
        for x in roots(eng, v):
            while x[0] == "mut":
                x = x[1]
            if x == self.src:
                return 0, None
            if x[0] in ("r", "o"):
                nm = name_of(eng, x)
                for a in call_args(eng, x):
                    if re.search(r"^Index::index$|::(get|get_unchecked)$", nm) and len(a) == 2:
                        p = self.rest(eng, a[0])
                        s = span_of(a[1])
                        if p is None or s is None:
                            return None
                        b = 0 if s[0] is None else number(eng, s[0])
                        if b is None or p[0] == "?":
                            return "?", None
                        e = p[1] if s[1] is None else s[1]
                        return p[0] + b, e
                    if re.search(r"::(strip_prefix|trim_start_matches|trim_left_matches)$", nm) and self.whole(eng, a[0]):
                        return 1, None
                    if re.search(r"::as_str$", nm):
                        return ("?", None) if self.whole(eng, a[0]) else None
            if x[0] == "f" and x[2] in (1, "1"):
                for y in roots(eng, x[1]):
                    if re.search(r"::split_first$", name_of(eng, y)) and any(self.whole(eng, a[0]) for a in call_args(eng, y)):
                        return 1, None
                    for a in call_args(eng, y):
                        if re.search(r"::split_at$", name_of(eng, y)) and self.whole(eng, a[0]):
                            k = number(eng, a[1])
                            return ("?" if k is None else k), None
        return None


def isconst(eng, v):
    return number(eng, v)


CONV = re.compile(r"^Try(Into|From)::|::try_(into|from)$|^std::array::|::to_array$|::(first_chunk|as_array)$")


def parse_db(an, ck, n, fn):
    """id -> variant, as the parser of the database form reads it."""
    src = param(fn, 0)
    F = First(src)
    table = {}

    def note_first(eng, st, v, val, eq):
        if v[0] == "bin" and v[1] == "Eq" and eq == (val == 1):
            for a, b in ((v[2], v[3]), (v[3], v[2])):
                k = number(eng, b)
                if k is not None and F.first(eng, a):
                    add(st, "id", k)
        elif eq and v[0] not in ("bin", "discr", "un") and F.first(eng, v):
            add(st, "id", val)

    def on_fact(eng, st, v, val, eq):
        note_first(eng, st, v, val, eq)
        if v[0] == "bin" and v[1] == "Eq" and eq == (val == 1):
            for a, b in ((v[2], v[3]), (v[3], v[2])):
                if number(eng, b) is not None:
                    measured(eng, st, a, number(eng, b))
        elif eq and v[0] not in ("bin", "discr", "un"):
            measured(eng, st, v, val)

    def measured(eng, st, v, k):
        for y in roots(eng, v):
            if name_of(eng, y).endswith("::len") or name_of(eng, y).startswith("un:PtrMetadata"):
                known = {F.rest(eng, a[0]) for a in call_args(eng, y)}
                for r in known:
                    # the length of the whole input, when it is known which part of it this is
                    add(st, "length", k + r[0] if r and r[0] in (0, 1) and r[1] is None and len(known) == 1 and isinstance(k, int) else None)

    def on_result(eng, st, ev, v):
        if CONV.search(ev.name) and ev.args:
            for x in roots(eng, ev.args[0]):
                add(st, "conv", ev.sid, F.rest(eng, x))
                if eng.lenof(st, x) is not None:
                    add(st, "convlen", ev.sid, eng.lenof(st, x))

    def on_ret(eng, st, f, ctx, v):
        if not outermost(eng, ctx) or okval(v) is None:
            return
        r = okval(v)
        if r is False:
            ck.notes.append("%s: a result was not recognised" % fn.pretty())
            return
        for x in roots(eng, r):
            if x[0] != "agg" or x[1] != KEY:
                ck.notes.append("%s: a result was not recognised" % fn.pretty())
                continue
            i = x[2]
            n.hit("keys made from their database form", an.adts[KEY]["v"][i][0])
            name = an.adts[KEY]["v"][i][0]
            ids = {t[1] for t in st.mon if t[0] == "id"}
            if len(ids) != 1:
                ck.bad("any id for %s" % name, "%s can make a %s key without the type id having been checked" % (fn.pretty(), name), fn.span)
            else:
                table.setdefault(ids.pop(), set()).add(i)
            p = x[3][0]
            got = None
            whole = (sizes(an).get(i) or 0) + 1
            exact = any(t[0] == "length" and (t[1] is None or whole == 1 or t[1] == whole) for t in st.mon)
            for y in roots(eng, p):
                while y[0] == "mut":
                    y = y[1]
                cut = [t[2] for t in st.mon if t[0] == "conv" and y[0] in ("r", "o") and t[1] == y[1] and t[2] and t[2][1] is not None]
                if cut and not exact:
                    ck.bad("length of %s" % name, "%s can make a %s key of more bytes than it has: it only takes a part of what follows the type id" % (fn.pretty(), name), fn.span)
                if y[0] in ("r", "o") and CONV.search(name_of(eng, y)):
                    for a in call_args(eng, y):
                        got = F.rest(eng, a[0])
                        if re.search(r"Try(Into|From)|try_(into|from)|as_array", name_of(eng, y)) and got and got[1] is None:
                            exact = True
                elif y[0] == "agg":
                    got = got or (("?", None) if any(src in eng.origins(z) for z in y[3]) else None)
            if any(t[0] == "convlen" and t[2] + 1 != whole and any(y[:2] == ("r", t[1]) for y in roots(eng, p)) for t in st.mon):
                continue  # a conversion that cannot succeed
            if src not in eng.origins(p) and not any(src in eng.origins(z) for z in muts_of(eng, p)):
                ck.bad("bytes of %s" % name, "%s makes a %s key that is not made of the bytes given" % (fn.pretty(), name), fn.span)
                continue
            if got and got[0] not in ("?", 1):
                ck.bad("bytes of %s" % name, "%s takes the hash from byte %s on, not from the one after the type id" % (fn.pretty(), got[0]), fn.span)
            ops = {name_of(eng, z) for z in eng.origins(p) if z[0] in ("r", "o")} | {eng.sites[s].name for z in eng.origins(p) if z[0] == "mut" for s in eng.muts[z]}
            if not exact and not any(re.search(r"::(copy_from_slice|clone_from_slice)$", o) for o in ops) or not exact and any(
                    re.search(r"^IndexMut::index_mut$|::(min|zip|resize|take|truncate|get_mut)$", o) for o in ops):
                ck.bad("length of %s" % name, "%s can make a %s key of a wrong number of bytes" % (fn.pretty(), name), fn.span)
    e = an.engine(Mon(on_fact=on_fact, on_ret=on_ret, on_result=on_result))
    ck.absorb(e, e.run(fn.id))
    return table


def muts_of(eng, v):
    for z in eng.origins(v):
        if z[0] == "mut":
            for s in eng.muts[z]:
                for a in eng.sites[s].args:
                    for y in a:
                        yield y


def sizes(an):
    """How many bytes each variant of a key has."""
    out = {}
    for i, (name, fields, *_) in enumerate(an.adts[KEY]["v"]):
        m = re.match(r"^\[u8; (\d+)(_usize|usize)?\]$", fields[0][1]) if fields else None
        if m:
            out[i] = int(m.group(1))
    return out


def parse_user(an, ck, n, fn, ids):
    """(prefix, id) pairs of the parser of the user form."""
    src = param(fn, 0)
    F = First(src)
    dec = an.fn("snapcd::base32::from_base32")
    size = sizes(an)
    kv, rv, fv = an.variant(KEYISH, "Key"), an.variant(KEYISH, "Range"), an.variant(KEYISH, "Reflog")
    pairs = {}

    def one(eng, st, v):
        for x in strip(eng, v):
            b = bits(eng, x)
            if b is not None:
                return ("bytes", b)
        return None

    def bits(eng, x, d=0):
        """The call that decoded what x is the bits of."""
        while x[0] == "mut":
            x = x[1]
        for y in roots(eng, x):
            while y[0] == "mut":
                y = y[1]
            if y[0] in ("r", "o"):
                if getattr(eng.sites[y[1]].callee, "id", None) == dec.id:
                    return y
                if d < 6 and re.search(r"::(into_vec|clone|to_bitvec|into_boxed_slice|as_slice|as_raw_slice|to_vec|into_inner|deref|as_bitslice|into_iter|iter)$", name_of(eng, y)):
                    for a in call_args(eng, y):
                        b = bits(eng, a[0], d + 1)
                        if b is not None:
                            return b
        return None
    P = [None]

    def on_call(eng, st, ev):
        P[0].put(st, ev)
        if re.search(r"::(strip_prefix|starts_with)$", ev.name) and F.whole(eng, ev.args[0]):
            pass

    def lengths(eng, v):
        """What v is the length of: the input, its rest, or decoded bits."""
        out = set()
        for y in roots(eng, v):
            if name_of(eng, y).endswith("::len") or name_of(eng, y).startswith("un:PtrMetadata"):
                for a in call_args(eng, y):
                    b = bits(eng, a[0])
                    out.add("bits" if b is not None else "text" if F.rest(eng, a[0]) or F.whole(eng, a[0]) else None)
            elif name_of(eng, y) == "Iterator::count":
                for a in call_args(eng, y):
                    if any(F.whole(eng, b) or F.rest(eng, b) for b in bases(a[0])):
                        out.add("text")
        return out

    def on_fact(eng, st, v, val, eq):
        if v[0] == "bin" and v[1] in ("Eq", "Lt", "Le", "Gt", "Ge"):
            truth = eq == (val == 1)
            for a, b, op in ((v[2], v[3], v[1]), (v[3], v[2], {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(v[1], v[1]))):
                ls = lengths(eng, a)
                k = number(eng, b)
                if "bits" in ls and k is not None:
                    if (op, truth) in (("Eq", True), ("Lt", False), ("Ge", True)):
                        add(st, "full", k)
                if "text" in ls and (op, truth) in (("Eq", True), ("Lt", True), ("Le", True), ("Gt", False), ("Ge", False)):
                    k = number(eng, b)
                    add(st, "short", -1 if k is None else k + (-1 if (op, truth) in (("Lt", True), ("Ge", False)) else 0))
                k = letter(eng, b)
                if k is not None and op == "Eq" and truth and F.first(eng, a):
                    add(st, "prefix", k)
            return
        for y in roots(eng, v if v[0] != "discr" else v[1]):
            nm = name_of(eng, y)
            if re.search(r"^std::str::(starts_with|strip_prefix)$", nm) and (val == 1) == eq:
                for a in call_args(eng, y):
                    if F.whole(eng, a[0]):
                        k = next((x[2] if x[1] == "int" else raw(x)[0] for x in strip(eng, a[1]) if x[0] == "c" and (x[1] == "int" or len(raw(x)) == 1)), None)
                        if k is not None:
                            add(st, "prefix", k)
        if v[0] not in ("discr", "un") and eq:
            if F.first(eng, v):
                add(st, "prefix", val)
            elif "bits" in lengths(eng, v):
                add(st, "full", val)

    def on_ret(eng, st, f, ctx, v):
        if not outermost(eng, ctx) or okval(v) is None:
            return
        r = okval(v)
        for x in roots(eng, r) if r is not False else ():
            if x[0] != "agg" or x[1] != KEYISH or x[2] == fv:
                continue
            kind = an.adts[KEYISH]["v"][x[2]][0]
            n.hit("keys read from what the user gave", kind)
            pre = {t[1] for t in st.mon if t[0] == "prefix"}
            if len(pre) != 1:
                ck.bad("any prefix", "%s can take a text for a key without having checked its first character" % fn.pretty(), fn.span)
                continue
            p = pre.pop()
            vals = [x[3][1]]
            if x[2] == rv:
                for y in strip(eng, x[3][2]):
                    if y[0] == "agg" and y[1] == OPTION and y[2] == 1:
                        vals.append(y[3][0])
            for val in vals:
                seq = P[0].flat(st, val)
                if not known(seq):
                    ck.notes.append("%s: how a key is put together was not recognised" % fn.pretty())
                    continue
                if len(seq) != 2 or seq[0][0] != "c" or seq[1][0] != "bytes":
                    ck.bad("user key made of %s" % say(seq), "%s makes a key of %s; it must be the type id followed by what the text stands for" % (fn.pretty(), say(seq)), fn.span)
                    continue
                i = seq[0][1]
                pairs.setdefault(p, set()).add(i)
                d = seq[1][1]
                var = next((q for q, j in ids.items() if j == i), None)
                for a in call_args(eng, d):
                    s = F.rest(eng, a[0])
                    if s is None or s[0] != "?" and s[0] != 1 or s[1] is not None:
                        if s is not None:
                            ck.bad("text decoded", "%s decodes %s, not all of what follows the prefix" % (fn.pretty(), eng.show(a[0])), fn.span)
                        elif src not in eng.origins(a[0]):
                            ck.bad("text decoded", "%s decodes %s, which is not what was given" % (fn.pretty(), eng.show(a[0])), fn.span)
                    m = number(eng, a[1])
                    if var in size and m is not None and m != 8 * size[var]:
                        ck.bad("bits decoded", "%s decodes %d bits for a hash of %d bytes" % (fn.pretty(), m, size[var]), fn.span)
                if x[2] == kv:
                    full = {t[1] for t in st.mon if t[0] == "full"}
                    if var in size and not full:
                        ck.bad("short key", "%s can take an abbreviation for a full key" % fn.pretty(), fn.span)
                    elif var in size and full != {8 * size[var]}:
                        ck.bad("short key", "%s takes %s bits for a full key of %d bytes" % (fn.pretty(), sorted(full), size[var]), fn.span)
                short = {t[1] for t in st.mon if t[0] == "short"}
                if not short and any(number(eng, a[1]) is not None for a in call_args(eng, d)):
                    ck.bad("long key", "%s can take a text that is too long for a key, ignoring its end" % fn.pretty(), fn.span)
                elif var in size and short and -1 not in short and min(short) > -(-8 * size[var] // 5) + 1:
                    ck.bad("long key", "%s takes texts of up to %d characters for a key of %d bytes" % (fn.pretty(), min(short), size[var]), fn.span)
    m = Mon(cut=[dec], on_call=on_call, on_fact=on_fact, on_ret=on_ret)
    e = an.engine(m)
    P[0] = Pieces(e, one)
    ck.absorb(e, e.run(fn.id))
    return pairs


def display(an, ck, n, fn, userkey):
    """Printing a key prints its user form, all of it."""
    good = []

    def on_ret(eng, st, f, ctx, v):
        if not outermost(eng, ctx) or okval(v) is None:
            return
        outs = [t for t in st.mon if t[0] == "out"]
        n.hit("keys printed", fn.short)
        if not outs:
            ck.bad("%s: nothing printed" % fn.short, "%s can succeed without printing the key" % fn.pretty(), fn.span)
        for t in outs:
            if t[1] == "part":
                ck.bad("%s: part printed" % fn.short, "%s prints only a part of the key" % fn.pretty(), fn.span)
            elif t[1] == "other":
                ck.bad("%s: other form printed" % fn.short, "%s prints something else than the key's user form" % fn.pretty(), fn.span)
        good.append(1)

    def on_call(eng, st, ev):
        if re.search(r"Formatter::(write_str|write_fmt|pad)$|^(std::fmt::)?Write::(write_str|write_fmt)$|^(std::fmt::)?Display::fmt$|^std::fmt::Display::fmt$", ev.name):
            o = set()
            for a in ev.args[:-1] if "Display" in ev.name else ev.args[1:]:
                o |= eng.origins(a)
            us = {x for x in o if x[0] in ("r", "o") and getattr(eng.sites[x[1]].callee, "id", None) == userkey.id}
            cut = any(x[0] in ("r", "o") and (name_of(eng, x) == "Index::index" or re.search(r"::(get|split_at|truncate|chars|take|skip)$", name_of(eng, x))) for x in o) or any(
                x[0] == "mut" and any(re.search(r"::(truncate|pop|remove|drain|clear)$", eng.sites[s].name) for s in eng.muts[x]) for x in o)
            if us:
                add(st, "out", "part" if cut else "all")
            elif any(re.search(r"Argument::new_(debug|lower_hex|upper_hex)$", name_of(eng, x)) for x in o if x[0] in ("r", "o")):
                add(st, "out", "other")
            else:
                add(st, "out", "?")
    e = an.engine(Mon(cut=[userkey], on_call=on_call, on_ret=on_ret))
    ck.absorb(e, e.run(fn.id))


def C17(an, ck):
    n = Seen()
    todb, user = an.assoc("Key", "as_db_key"), an.assoc("Key", "as_user_key")
    fromdb, fromuser = an.assoc("Key", "from_db_key"), an.tm("Keyish", "FromStr", "from_str")
    ids = build(an, ck, n, todb, "the database form of a key", False)
    back = parse_db(an, ck, n, fromdb)
    pres = build(an, ck, n, user, "the user form of a key", True)
    pairs = parse_user(an, ck, n, fromuser, ids)
    names = [v[0] for v in an.adts[KEY]["v"]]
    for i, b in sorted(ids.items()):
        n.hit("types compared", "db", names[i])
        if back and i not in back.get(b, ()):
            ck.bad("id of %s" % names[i], "a %s key is written with type id %s, which %s does not read as %s" % (names[i], b, fromdb.pretty(), names[i]), fromdb.span)
    for b, vs in sorted(back.items()):
        for i in sorted(vs):
            n.hit("types compared", "parsed", b)
            if ids and ids.get(i, b) != b:
                ck.bad("id %s" % b, "type id %s is read as a %s key, which is written with %s" % (b, names[i], ids[i]), fromdb.span)
        if len(vs) > 1:
            ck.bad("id %s twice" % b, "type id %s is read as more than one type of key" % b, fromdb.span)
    for i, p in sorted(pres.items()):
        n.hit("types compared", "user", names[i])
        if pairs and i in ids and ids[i] not in pairs.get(p, ()):
            ck.bad("prefix of %s" % names[i], "a %s key is shown with the prefix %s, which %s does not turn into type id %s" % (names[i], chr(p), fromuser.pretty(), ids[i]), fromuser.span)
    for p, bs in sorted(pairs.items()):
        n.hit("types compared", "given", p)
        for b in sorted(bs):
            i = next((i for i, j in ids.items() if j == b), None)
            if ids and (i is None or pres and pres.get(i, p) != p):
                ck.bad("prefix %s" % p, "the prefix %s is turned into type id %s, which is %s" % (
                    chr(p), b, "not the id of any key" if i is None else "that of keys shown with %s" % chr(pres[i])), fromuser.span)
    for t in ("Key", "TypedKey"):
        f = an.tm(t, "Display", "fmt", need=False)
        if f is not None:
            display(an, ck, n, f, user)
    n.into(ck)


def refs(an, ck):
    """How a text with a slash names a ref (part of C16)."""
    n = Seen()
    fn = an.tm("Keyish", "FromStr", "from_str")
    src = param(fn, 0)
    fv = an.variant(KEYISH, "Reflog")
    names = [f[0] for f in an.adts[KEYISH]["v"][fv][1]]
    if "remote" not in names or "keyname" not in names:
        raise CheckError("the ref form of a key has no remote or no name")
    rem, nam = names.index("remote"), names.index("keyname")
    bad = lambda k, m: ck.bad("ref text: " + k, "%s %s" % (fn.pretty(), m), fn.span)

    def slash(eng, v):
        return any(x[0] == "c" and (x[1] == "int" and x[2] == 47 or x[1] == "bytes" and raw(x) == b"/") for x in strip(eng, v))

    def at(eng, v):
        """Is v the position of a slash in the text?  'first', 'last' or None."""
        for x in roots(eng, v):
            if x[0] in ("r", "o") and re.search(r"^std::str::r?find$|^Iterator::r?position$|^(std::)?memchr", name_of(eng, x)):
                for a in call_args(eng, x):
                    if src in eng.origins(a[0]):
                        return "last" if re.search(r"::r(find|position)$", name_of(eng, x)) else "first"
        return None

    def part(eng, v):
        """Which part of the text v is: 'before', 'after', a complaint, or None if unknown."""
        for x in roots(eng, v):
            if x == src:
                return "the whole text"
            if x[0] in ("r", "o") and re.search(r"^Index::index$|^std::str::(get|get_unchecked)$", name_of(eng, x)):
                for a in call_args(eng, x):
                    if src not in roots(eng, a[0]):
                        return None
                    s = span_of(a[1])
                    if s is None:
                        i = inclusive(eng, a[1])
                        return "what ends with the slash" if i and at(eng, i[1]) else None
                    b, e = s
                    if e is None and b is not None:
                        k = number(eng, b)
                        if k is not None:
                            return "after 0" if k == 1 else "what begins at character %d" % k
                        for y in roots(eng, b):
                            m = re.match(r"^bin:Add", name_of(eng, y))
                            if m:
                                for c in call_args(eng, y):
                                    p = [at(eng, z) for z in c]
                                    k = [number(eng, z) for z in c]
                                    w = next((q for q in p if q), None)
                                    j = next((q for q in k if q is not None), None)
                                    if w and j is not None:
                                        return "what follows the last slash" if w == "last" else "after" if j == 1 else "what begins %d after the slash" % j
                            if at(eng, y):
                                return "what begins with the slash"
                        return None
                    if b is not None and number(eng, b) not in (None, 0) and e is not None and at(eng, e):
                        return "what begins at character %d" % number(eng, b)
                    if e is not None and (b is None or number(eng, b) == 0):
                        w = at(eng, e)
                        return "before" if w == "first" else "what comes before the last slash" if w else None
                    return None
            if x[0] == "f" and x[2] in (0, 1, "0", "1"):
                for y in roots(eng, x[1]):
                    m = re.search(r"^std::str::(r?split_once|split_at)$", name_of(eng, y))
                    if m and any(src in roots(eng, a[0]) for a in call_args(eng, y)):
                        if m.group(1) == "split_at":
                            return None
                        if m.group(1) == "rsplit_once":
                            return "what is %s the last slash" % ("after" if int(x[2]) else "before")
                        return "after" if int(x[2]) else "before"
            if x[0] in ("r", "o") and re.search(r"^std::str::strip_prefix$", name_of(eng, x)) and any(src in roots(eng, a[0]) and slash(eng, a[1]) for a in call_args(eng, x)):
                return "after 0"
        return None

    def on_fact(eng, st, v, val, eq):
        truth = eq == (val == 1)
        if v[0] == "bin" and v[1] in ("Eq", "Lt"):
            for a, b in ((v[2], v[3]), (v[3], v[2])):
                if number(eng, b) == 0 and at(eng, a) == "first":
                    add(st, "zero" if (truth if v[1] == "Eq" else not truth) else "nonzero")
        elif v[0] not in ("discr", "un") and at(eng, v) == "first" and v[0] == "v":
            if val == 0:
                add(st, "zero" if eq else "nonzero")
        for x in roots(eng, v if v[0] != "discr" else v[1]):
            nm = name_of(eng, x)
            if EMPTY.match(nm) and any(part(eng, a[0]) == "before" for a in call_args(eng, x)):
                add(st, "zero" if truth else "nonzero")
            if re.search(r"^std::str::(starts_with|strip_prefix)$", nm) and any(src in roots(eng, a[0]) and slash(eng, a[1]) for a in call_args(eng, x)):
                add(st, "zero" if truth else "nonzero")
                if truth:
                    add(st, "slash")
            if nm in ("std::str::contains",) and truth or re.search(r"^std::str::(find|rfind|split_once|rsplit_once)$", nm) and v[0] == "discr" and truth:
                if any(src in roots(eng, a[0]) and slash(eng, a[1]) for a in call_args(eng, x)):
                    add(st, "slash")

    def on_ret(eng, st, f, ctx, v):
        if not outermost(eng, ctx) or okval(v) is None or okval(v) is False:
            return
        for x in roots(eng, okval(v)):
            if x[0] != "agg" or x[1] != KEYISH or x[2] != fv:
                continue
            n.hit("refs read from what the user gave", len(n.get("refs read from what the user gave", ())))
            if not has(st, "slash"):
                if not any(re.search(r"::(splitn?|chars|bytes|split_at|position|iter)$", name_of(eng, y)) for y in eng.origins(x) if y[0] in ("r", "o")):
                    bad("no slash", "can take a text for a ref although it has no slash")
            p = part(eng, x[3][nam])
            if p == "after 0":
                if not has(st, "zero"):
                    bad("name", "can take what follows the first character for the ref's name although the slash is not there")
            elif p is not None and p != "after":
                bad("name", "takes %s for the ref's name, not what follows the first slash" % ("what comes before the slash" if p == "before" else p))
            for y in strip(eng, x[3][rem]):
                if y[0] == "agg" and y[1] == OPTION and y[2] == 0:
                    if has(st, "nonzero") or not has(st, "zero") and p in ("after", "after 0"):
                        bad("remote lost", "can ignore what comes before the slash")
                elif y[0] == "agg" and y[1] == OPTION:
                    q = part(eng, y[3][0])
                    if q is not None and q != "before":
                        bad("remote", "takes %s for the remote, not what comes before the first slash" % q)
                    elif q == "before" and not has(st, "nonzero"):
                        bad("empty remote", "can take nothing for the name of a remote, where a local ref is meant")
    e = an.engine(Mon(on_fact=on_fact, on_ret=on_ret))
    ck.absorb(e, e.run(fn.id))
    n.into(ck)


def C16(an, ck):
    from . import sqlrules
    sqlrules.C16(an, ck)
    refs(an, ck)
