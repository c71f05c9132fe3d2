"""C41: base32 there and back, bit by bit."""
from .keys import *
from .trees import bases
from .prov import call_args, name_of, roots, okval, outermost
from .shown import raw

LOWER = re.compile(r"::(to_ascii_lowercase|to_lowercase|make_ascii_lowercase)$")
UPPERS = frozenset(range(65, 91))


def ints(v):
    return v[2] if v[0] == "c" and v[1] == "int" else None


def C41(an, ck):
    n = Seen()
    dec, enc = an.fn("snapcd::base32::from_base32"), an.fn("snapcd::base32::to_base32")
    t1 = decode(an, ck, n, dec)
    t2 = encode(an, ck, n, enc)
    for t, f in ((t1, dec), (t2, enc)):
        if t is None:
            ck.notes.append("%s: how a letter and a number belong together was not recognised" % f.pretty())
            continue
        n.hit("tables", f.short, t)
        if len(t) != 32 or len(set(t)) != 32:
            ck.bad("letters not distinct in %s" % f.short, "the table %s uses does not have 32 different letters" % f.pretty(), f.span)
        elif len(set(t.lower())) != 32:
            ck.bad("letters differ only in case in %s" % f.short, "the table %s uses has letters that differ in case only" % f.pretty(), f.span)
    if t1 is not None and t2 is not None and t1 != t2:
        ck.bad("tables differ", "%s writes letters from another table than the one %s looks them up in" % (enc.pretty(), dec.pretty()), dec.span)
    ck.notes[:] = list(dict.fromkeys(ck.notes))
    n.into(ck)


# --- text to bits
def decode(an, ck, n, fn):
    src, limit = param(fn, 0), param(fn, 1)
    table, unknown, later = set(), set(), []

    def letters(eng, v):
        """(byte of the input, what was done to it) for each value v can be."""
        out = set()
        todo, seen = [(v, ())], set()
        while todo:
            x, ops = todo.pop()
            if (x, ops) in seen:
                continue
            seen.add((x, ops))
            if x[0] == "or":
                todo += [(y, ops) for y in x[1]]
            elif x[0] == "conv":
                todo.append((x[1], ops))
            elif x[0] in ("r", "o"):
                nm = name_of(eng, x)
                a = [y for y in call_args(eng, x)]
                if nm == "bin:BitOr" and len(a) == 1:
                    k = [ints(z) for z in a[0]]
                    for i in (0, 1):
                        if k[i] is not None:
                            todo.append((a[0][1 - i], ops + (("or", k[i]),)))
                elif nm.startswith("bin:Add") and len(a) == 1 and ints(a[0][1]) is not None:
                    todo.append((a[0][0], ops + (("add", ints(a[0][1])),)))
                elif LOWER.search(nm) and len(a) == 1:
                    todo.append((a[0][0], ops + (("lower", 0),)))
                elif nm in ("next", "Iterator::next"):
                    out.add((x, ops))
                else:
                    out.add((None, (nm,)))
            else:
                out.add((None, ("?",)))
        return out

    def look(eng, st, tab, v):
        """A letter is looked up in the table."""
        if tab[0] != "c" or tab[1] != "bytes":
            return
        table.add(raw(tab))
        for x, ops in letters(eng, v):
            if x is None:
                unknown.add("letters")
                continue
            n.hit("letters looked up", repr(ops), repr(sorted(t for t in map(repr, st.mon) if "case" in t)))
            facts = [t for t in st.mon if t[0] == "case"]
            if any(o[0] == "lower" for o in ops):
                continue
            ins = [t for t in facts if t[3]]
            outs = [t for t in facts if not t[3]]
            may = set(range(256))
            for _, lo, hi, yes in facts:
                r = set(range(lo, hi + 1))
                may = may & r if yes else may - r
            if any(t[0] == "odd case" for t in st.mon):
                unknown.add("letters")
                continue
            tb = raw(tab)
            wrong = []
            for b in sorted(may):
                y = b
                for k, c in ops:
                    y = (y | c if k == "or" else y + c) & 255
                low = bytes([b]).lower()[0]
                if low in tb and y != low:
                    wrong.append(chr(b))
                elif low not in tb and y in tb and b >= 64 and b < 128:
                    wrong.append(chr(b))
            if wrong:
                ck.bad("case of letters", "%s does not take %s for the letter it is in lower case" % (fn.pretty(), ", ".join(wrong[:4])), fn.span)

    def on_fact(eng, st, v, val, eq):
        truth = (val == 1) == eq
        # what range a letter is in
        if v[0] in ("r", "o"):
            nm = name_of(eng, v)
            for a in call_args(eng, v):
                if re.search(r"Range(Inclusive|From|To|ToInclusive)?::contains$", nm) and len(a) == 2 and isletter(eng, a[1]):
                    r = inclusive_range(eng, a[0])
                    if r is None:
                        add(st, "odd case")
                    else:
                        add(st, "case", r[0], r[1], truth)
                    return
                if re.search(r"::is_ascii_uppercase$", nm) and isletter(eng, a[0]):
                    add(st, "case", 65, 90, truth)
                    return
                if re.search(r"::is_ascii_lowercase$", nm) and isletter(eng, a[0]):
                    add(st, "case", 97, 122, truth)
                    return
                if a and isletter(eng, a[0]) and v[0] == "r":
                    add(st, "odd case")
        if v[0] == "bin" and v[1] in ("Lt", "Eq"):
            for a, b, first in ((v[2], v[3], True), (v[3], v[2], False)):
                k = ints(b)
                if k is not None and isletter(eng, a):
                    if v[1] == "Eq":
                        add(st, "case", k, k, truth)
                    elif first:
                        add(st, "case", 0, k - 1, truth)
                    else:
                        add(st, "case", k + 1, 255, truth)
                    return
                # the comparison with an element of the table
                tab = element(eng, a)
                if tab is not None and v[1] == "Eq" and isany(eng, b):
                    look(eng, st, tab, b)
                    return
        if eq and isletter(eng, v) and isinstance(val, int):
            add(st, "case", val, val, True)

    def inclusive_range(eng, r):
        if r[0] in ("r", "o") and name_of(eng, r).endswith("RangeInclusive::new"):
            a = list(call_args(eng, r))
            if len(a) == 1 and ints(a[0][0]) is not None and ints(a[0][1]) is not None:
                return ints(a[0][0]), ints(a[0][1])
        if r[0] == "agg" and r[1].endswith("RangeInclusive"):
            k = [ints(x) for x in r[3][:2]]
            return tuple(k) if None not in k else None
        if r[0] == "agg" and r[1].startswith("core::ops::range::"):
            k = [ints(x) for x in r[3]]
            if None in k:
                return None
            return {"Range": lambda: (k[0], k[1] - 1), "RangeFrom": lambda: (k[0], 255), "RangeTo": lambda: (0, k[0] - 1), "RangeToInclusive": lambda: (0, k[0])}.get(
                r[1].split("::")[-1], lambda: None)()
        return None

    def isany(eng, v):
        return any(x is not None for x, _ in letters(eng, v))

    def isletter(eng, v):
        """An unchanged letter of the input."""
        ls = letters(eng, v)
        return bool(ls) and all(x is not None and not ops and src in eng.origins(x) for x, ops in ls)

    def element(eng, v):
        if v[0] in ("r", "o") and name_of(eng, v) in ("next", "Iterator::next"):
            for a in call_args(eng, v):
                for z in (a[0],) + (tuple(a[0][2]) if a[0][0] == "it" else ()):
                    if type(z) is T and z[0] == "c" and z[1] == "bytes":
                        return z
        if v[0] == "f" and v[1][0] == "c" and v[1][1] == "bytes":
            return v[1]
        return None

    def mask(eng, v):
        """The bit of the number found that v is: (number, mask) or None."""
        neg = False
        while v[0] == "un" and v[1] == "Not":
            neg = not neg
            v = v[2]
        if v[0] == "bin" and v[1] == "Eq":
            for a, b in ((v[2], v[3]), (v[3], v[2])):
                k = ints(b)
                m = anded(eng, a)
                if m is not None and k is not None:
                    if k == 0:
                        return m[0], m[1], neg
                    if k == m[1]:
                        return m[0], m[1], not neg
        if v[0] == "bin" and v[1] == "Lt":
            m = anded(eng, v[3])
            if m is not None and ints(v[2]) == 0:
                return m[0], m[1], not neg
        return None

    def anded(eng, a):
        if a[0] in ("r", "o") and name_of(eng, a) == "bin:BitAnd":
            x = list(call_args(eng, a))
            if len(x) == 1:
                for p, q in (x[0], x[0][::-1]):
                    k = ints(q)
                    if k is not None:
                        if p[0] in ("r", "o") and name_of(eng, p).startswith("bin:Shr"):
                            y = list(call_args(eng, p))
                            s = ints(y[0][1]) if len(y) == 1 else None
                            return (y[0][0], k << s) if s is not None else None
                        return p, k
        return None

    def isbits(ev, i=0):
        return i < len(ev.argtys) and "BitVec<" in ev.argtys[i]["s"]

    def on_call(eng, st, ev):
        m = ev.name.split("::")[-1]
        if m in ("next", "into_iter") and ev.args and ev.args[0][0] == "it" and any(src in eng.origins(b) for b in bases(ev.args[0])):
            if Pieces(eng, None).kinds(ev.args[0]) & {"rev", "skip", "take", "step_by", "filter", "skip_while", "take_while"}:
                ck.bad("letters left out", "%s does not go through all letters in order" % fn.pretty(), ev.span, eng.chain(ev.ctx))
        if not ev.args or not isbits(ev) or ev.argtys[0]["k"] != "ref" or not ev.argtys[0]["m"]:
            return
        if m == "push":
            n.hit("bits kept", ev)
            b = mask(eng, ev.args[1])
            if b is None:
                add(st, "odd bits")
                unknown.add("bits")
                return
            p, k, yes = b
            have = sorted(t for t in st.mon if t[0] == "bit")
            want = 16 >> len(have)
            at = (ev.span, eng.chain(ev.ctx))
            if has(st, "odd bits"):
                return
            if not yes:
                ck.bad("bit inverted in %s" % ev.fn.short, "a bit of a letter is decoded inverted", *at)
            elif k != want:
                ck.bad("bits of a letter in %s" % ev.fn.short, "bit %d of the five bits of a letter is decoded from the bit of value %d" % (len(have) + 1, k), *at)
            if len(have) >= 5:
                ck.bad("too many bits in %s" % ev.fn.short, "more than five bits are decoded from a letter", *at)
            add(st, "bit", len(have))
        elif m == "truncate":
            add(st, "cut")
            if ev.args[1] is not limit:
                if limit in eng.origins(ev.args[1]):
                    unknown.add("limit")
                else:
                    ck.bad("cut in %s" % ev.fn.short, "the bits decoded are cut at something other than the number of bits asked for", ev.span, eng.chain(ev.ctx))
        elif m in ("pop", "remove", "clear", "insert", "swap", "set", "reverse", "drain", "retain", "resize", "split_off", "swap_remove", "not", "fill", "set_all"):
            unknown.add("bits")
            if m in ("pop", "clear", "reverse", "set_all", "swap", "not"):
                ck.bad("bits changed in %s" % ev.fn.short, "bits that were decoded are changed again (%s)" % m, ev.span, eng.chain(ev.ctx))

    def done(eng, st, at):
        k = len([t for t in st.mon if t[0] == "bit"])
        if has(st, "letter") and not has(st, "odd bits") and k < 5:
            later.append(("bits lost", "%s takes only %d of the five bits of a letter" % (fn.pretty(), k)) + tuple(at))
        drop(st, lambda t: t[0] in ("bit", "letter", "case", "odd case", "odd bits"))

    def frombytes(eng, it):
        b = it[2][0]
        return src in eng.origins(b)

    def on_item(eng, st, ev, it, v):
        if frombytes(eng, it):
            done(eng, st, (ev.span, eng.chain(ev.ctx)))
            add(st, "letter")

    def on_end(eng, st, ev, it):
        if frombytes(eng, it):
            done(eng, st, (ev.span, eng.chain(ev.ctx)))
            add(st, "end")

    def on_ret(eng, st, f, ctx, v):
        if not outermost(eng, ctx) or okval(v) is None:
            return
        n.hit("texts decoded", repr(sorted(map(repr, st.mon)))[:200])
        if not has(st, "end") and n["letters looked up"]:
            ck.bad("letters ignored", "%s can succeed without having gone through all letters" % fn.pretty(), fn.span)

    m = Mon(on_call=on_call, on_fact=on_fact, on_item=on_item, on_end=on_end, on_ret=on_ret)
    e = an.engine(m)
    ck.absorb(e, e.run(fn.id))
    if "bits" not in unknown:
        for b in later:
            ck.bad(*b)
    if not n["letters looked up"]:
        unknown.add("letters")
    for u in sorted(unknown):
        ck.notes.append("%s: what happens to the %s was not recognised" % (fn.pretty(), u))
    return next(iter(table)) if len(table) == 1 else None


# --- bits to text
def encode(an, ck, n, fn):
    src = param(fn, 0)
    table = set()
    unknown = set()

    def fivebits(eng, v):
        """{(position in the bits, place in the number)} that a number is made of, or None."""
        out, todo = set(), [v]
        while todo:
            x = todo.pop()
            if x[0] == "conv":
                todo.append(x[1])
                continue
            if x[0] == "or":
                todo += list(x[1])
                continue
            if x[0] == "bin" and x[1] == "BitOr":
                todo += [x[2], x[3]]
                continue
            if x[0] == "c":
                if x[2] not in (0, False):
                    return None
                continue
            if x[0] in ("r", "o") and name_of(eng, x) in ("bin:BitOr", "bin:Add"):
                a = list(call_args(eng, x))
                # a site that is passed on several paths: what they all can be
                for y in a:
                    todo += list(y)
                continue
            k = 0
            if x[0] in ("r", "o") and name_of(eng, x).startswith("bin:Shl"):
                a = list(call_args(eng, x))
                if len(a) != 1 or ints(a[0][1]) is None:
                    return None
                k = ints(a[0][1])
                x = a[0][0]
                while x[0] == "conv":
                    x = x[1]
                if x[0] == "c":
                    continue
            p = position(eng, x)
            if p is None:
                return None
            out.add((p, k))
        return out

    def position(eng, x):
        for y in roots(eng, x):
            if y[0] == "v":
                y = y[1]
            if y[0] == "f" and y[2] in (0, "0"):
                y = y[1]
            if y[0] == "v":
                y = y[1]
            if y[0] in ("r", "o") and re.search(r"::get$|^Index::index$", name_of(eng, y)):
                ks = {ints(a[1]) for a in call_args(eng, y)}
                if len(ks) == 1 and None not in ks:
                    return ks.pop()
        return None

    def isscratch(eng, v):
        return src in eng.origins(v)

    def on_call(eng, st, ev):
        m = ev.name.split("::")[-1]
        if ev.argtys and "BitVec<" in ev.argtys[0]["s"] and ev.argtys[0]["k"] == "ref" and ev.argtys[0]["m"]:
            at = (ev.span, eng.chain(ev.ctx))
            if m == "remove":
                n.hit("bits taken off", ev)
                if ints(ev.args[1]) not in (0, None):
                    ck.bad("bit taken from inside in %s" % ev.fn.short, "a bit other than the first is taken off after a letter was made", *at)
                add(st, "removed")
            elif m in ("drain", "split_off", "shl_assign"):
                unknown.add("bits")
                add(st, "removed")
                add(st, "odd removal")
            elif m in ("pop", "truncate", "reverse", "clear", "insert", "swap", "not", "set_all"):
                ck.bad("bits changed in %s" % ev.fn.short, "bits that are to be written are changed (%s)" % m, *at)
        if ev.name in ("std::string::String::push", "std::vec::Vec::push") and len(ev.args) == 2:
            for x in strip(eng, ev.args[1]):
                while x[0] == "conv":
                    x = x[1]
                if x[0] == "f" and x[2] == "[]" and x[1][0] == "c" and x[1][1] == "bytes":
                    table.add(raw(x[1]))
                    n.hit("letters written", ev)
                    b = fivebits(eng, x[3])
                    if b is None:
                        unknown.add("bits")
                    else:
                        for p, k in sorted(b):
                            if p + k != 4:
                                ck.bad("bits of a letter in %s" % ev.fn.short, "bit %d of the bits written goes to place %d of the letter's number" % (p, k),
                                       ev.span, eng.chain(ev.ctx))
                        seen.append(b)

    seen = []

    def on_end(eng, st, ev, it):
        r = it[2][0]
        if r[0] == "agg" and r[1].endswith("::Range") and ints(r[3][0]) is not None and ints(r[3][1]) is not None:
            c = ints(r[3][1]) - ints(r[3][0])
            if has(st, "removed") and not has(st, "odd removal"):
                n.hit("letters finished", ev)
                if c != 5:
                    ck.bad("bits per letter", "%d bits are taken off for each letter written; a letter stands for 5" % c, ev.span, eng.chain(ev.ctx))

    def on_fact(eng, st, v, val, eq):
        if v[0] == "r" and name_of(eng, v).endswith("::is_empty") and eq and val == 1 and any(isscratch(eng, a[0]) for a in call_args(eng, v)):
            add(st, "empty")
        elif islen(eng, v) and eq and val == 0:
            add(st, "empty")
        elif v[0] == "bin" and eq:
            a, b = v[2], v[3]
            if v[1] == "Lt" and (islen(eng, b) and ints(a) == 0 and val == 0 or islen(eng, a) and ints(b) == 1 and val == 1):
                add(st, "empty")
            elif v[1] == "Eq" and val == 1 and (islen(eng, a) and ints(b) == 0 or islen(eng, b) and ints(a) == 0):
                add(st, "empty")

    def islen(eng, v):
        return v[0] == "r" and name_of(eng, v).endswith("::len") and any(isscratch(eng, a[0]) for a in call_args(eng, v))

    def on_ret(eng, st, f, ctx, v):
        if not outermost(eng, ctx):
            return
        n.hit("texts written", repr(sorted(map(repr, st.mon)))[:100])
        if not has(st, "empty") and n["letters written"] and not unknown and n["bits taken off"]:
            ck.bad("bits left", "%s can return before all bits were written" % fn.pretty(), fn.span)

    m = Mon(on_call=on_call, on_end=on_end, on_ret=on_ret, on_fact=on_fact)
    e = an.engine(m)
    ck.absorb(e, e.run(fn.id))
    if not any(seen):
        unknown.add("bits")
    if not unknown:
        every = set().union(*seen)
        if {p for p, k in every} != set(range(5)):
            ck.bad("bits of a letter", "a letter is made of %d bits of %s, not of 5" % (len(every), fn.pretty()), fn.span)
    for u in sorted(unknown):
        ck.notes.append("%s: what happens to the %s was not recognised" % (fn.pretty(), u))
    return next(iter(table)) if len(table) == 1 else None
