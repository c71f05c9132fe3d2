"""Shared pieces: where values come from, and whether loops see everything."""
from ..core import *
from .sqlrules import LOSSY, REORDER

PUSH = re.compile(r"^std::(vec::Vec|collections::\w+(::\w+)*)::(push|push_back|insert|append)$|^Extend::extend$|^std::vec::Vec::extend_from_slice$")
UNORDERED = re.compile(r"^std::collections::(hash_(set|map)::)?(HashSet|HashMap|BTreeSet|BTreeMap|BinaryHeap)<")
EMPTY = re.compile(r"^std::(vec::Vec|slice|string::String|str|collections::\w+(::\w+)*)::is_empty$")


def name_of(eng, v):
    """The name of the call a term is the result of."""
    return eng.sites[v[1]].name if v[0] in ("r", "o") else ""


def last(name):
    return name.split("::")[-1]


def call_args(eng, v):
    return eng.sites[v[1]].args if v[0] in ("r", "o") else ()


def roots(eng, v, mut=False, d=0):
    """The terms a value is a copy of, looking through Ok/Some, typed keys and
    borrowed or owned forms."""
    out = set()
    if d > 30:
        return {v}
    for x in strip(eng, v):
        k = x[0]
        if k == "v" and x[2:] in ((0, 0), (1, 0)):
            out |= roots(eng, x[1], mut, d + 1)
        elif k == "agg" and x[1] == TYPEDKEY:
            out |= roots(eng, x[3][0], mut, d + 1)
        elif k == "f" and x[2] == "inner":
            out |= roots(eng, x[1], mut, d + 1)
        elif k == "agg" and ((x[1] == OPTION and x[2] == 1) or (x[1] == RESULT and x[2] == 0)):
            out |= roots(eng, x[3][0], mut, d + 1)
        elif k == "mut" and mut:
            out |= roots(eng, x[1], mut, d + 1)
        elif k in ("r", "o") and re.search(r"^std::option::Option::(ok_or|ok_or_else|unwrap_or|expect|unwrap)$|^std::result::Result::(unwrap|expect)$", name_of(eng, x)):
            for a in call_args(eng, x):
                out |= roots(eng, a[0], mut, d + 1)
                if last(name_of(eng, x)) == "unwrap_or":
                    out |= roots(eng, a[1], mut, d + 1)
        else:
            out.add(x)
    return out


def calls(eng, v, rx, mut=False):
    """Is v (every copy of it) the payload of a call matching rx?  The calls, or None."""
    out = set()
    for x in roots(eng, v, mut):
        if not (x[0] in ("r", "o") and re.search(rx, name_of(eng, x))):
            return None
        out.add(x)
    return out or None


def payload_of(eng, v, rx):
    """Every source of v that is the result of a call matching rx."""
    return {x for x in eng.origins(v) if x[0] in ("r", "o") and re.search(rx, name_of(eng, x))}


def outermost(eng, ctx):
    return eng.ctxs[ctx][0] == 0


def okval(v):
    """The payload of an Ok result, False if unknown, None if it is an Err."""
    if v[0] == "agg" and v[1] == RESULT:
        return v[3][0] if v[2] == 0 else None
    return False


def rangeend(eng, base):
    """x if base is the range 0..x.len()"""
    if base[0] == "agg" and base[1].endswith("Range") and len(base[3]) == 2:
        a, b = base[3]
        if a[0] == "c" and a[1] == "int" and a[2] == 0:
            for y in strip(eng, b):
                if y[0] in ("r", "o") and name_of(eng, y).endswith("::len"):
                    return [z[0] for z in call_args(eng, y)]
                if y[0] == "r" and name_of(eng, y).startswith("un:PtrMetadata"):
                    return [z[0] for z in call_args(eng, y)]
    return []


def elem(eng, v):
    """[(container, index)] if v is an element taken by position."""
    if v[0] == "f" and v[2] == "[]":
        return [(v[1], v[3] if len(v) > 3 else None)]
    if v[0] in ("r", "o") and name_of(eng, v) in ("Index::index", "std::slice::get", "std::slice::get_unchecked", "std::vec::Vec::get"):
        return [(a[0], a[1]) for a in call_args(eng, v)]
    if v[0] in ("r", "o") and name_of(eng, v) in ("std::slice::first", "std::vec::Vec::first"):
        return [(a[0], mk("c", "int", 0, "usize")) for a in call_args(eng, v)]
    return []


class Each:
    """Every element of a sequence must be used before the next one is taken,
    none may be skipped, and success needs the end of the sequence."""

    def __init__(self, n, ck, fn, what, src, verb="used", order=True, unordered_ok=False):
        self.n, self.ck, self.fn, self.what, self.src, self.verb, self.order = n, ck, fn, what, src, verb, order

    def key(self, eng, base):
        k = self.src(eng, base)
        if k:
            return k
        for y in rangeend(eng, base):
            k = self.src(eng, y)
            if k:
                return k
        return None

    def bad(self, eng, key, kind, msg, ev):
        self.ck.bad("%s: %s of %s" % (self.fn.short, kind, key), msg, ev.span if hasattr(ev, "span") else ev,
                    eng.chain(ev.ctx) if hasattr(ev, "ctx") else ())

    def item(self, eng, st, ev, it, v):
        k = self.key(eng, it[2][0])
        if not k:
            return
        self.n.hit("%s taken from their sequence" % self.what, ev)
        for t in st.mon:
            if t[0] == "pend" and t[1] == k:
                self.bad(eng, k, "skipped element", "%s can go on to the next of %s without having %s the one before" % (self.fn.pretty(), self.what, self.verb), ev)
        drop(st, lambda t: t[0] in ("pend", "open", "ended") and t[1] == k)
        add(st, "pend", k, v)
        add(st, "open", k)

    def end(self, eng, st, ev, it):
        k = self.key(eng, it[2][0])
        if not k:
            return
        for t in st.mon:
            if t[0] == "pend" and t[1] == k:
                self.bad(eng, k, "skipped element", "%s can finish %s without having %s one of them" % (self.fn.pretty(), self.what, self.verb), ev)
        drop(st, lambda t: t[0] in ("pend", "open") and t[1] == k)
        add(st, "ended", k)

    def call(self, eng, st, ev):
        """Calls that lose or reorder elements of the sequence."""
        if LOSSY.match(ev.name) or (self.order and REORDER.match(ev.name)):
            for a in ev.args[:1]:
                for x in eng.origins(a, stop=lambda x: x[0] in ("r", "o") and "::" in name_of(eng, x) and not re.match(
                        r"^(std|Iterator|IntoIterator|DoubleEnded|Itertools|itertools|next|Deref)", name_of(eng, x))):
                    k = self.src(eng, x)
                    if k and not self.allowed(eng, st, ev, k):
                        self.bad(eng, k, last(ev.name), "%s %s %s (%s)" % (
                            self.fn.pretty(), "drops part of" if LOSSY.match(ev.name) else "rearranges", self.what, ev.name), ev)

    def allowed(self, eng, st, ev, k):
        return False

    def fact(self, eng, st, v, val, eq):
        """Leaving a loop that counts up to the length ends the sequence as well."""
        if v[0] != "bin":
            return
        truth = (val == 1) == eq
        op, a, b = v[1], v[2], v[3]
        for op, a, b in ((op, a, b), ({"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op), b, a)):
            # a op length
            if (op, truth) not in (("Lt", False), ("Ge", True), ("Eq", True), ("Ne", False)):
                continue
            for y in strip(eng, b):
                if y[0] in ("r", "o") and (name_of(eng, y).endswith("::len") or name_of(eng, y).startswith("un:PtrMetadata")):
                    for z in call_args(eng, y):
                        k = self.src(eng, z[0])
                        if k and (has(st, "indexed", k) if a[0] != "c" else a[2:3] == (0,)):
                            drop(st, lambda t: t[0] in ("open",) and t[1] == k)
                            add(st, "ended", k)

    def indexed(self, eng, st, args, k=None):
        """An element taken by position was used."""
        hit = False
        for a in args:
            for x in eng.origins(a):
                for c, i in elem(eng, x):
                    q = self.src(eng, c)
                    if q and (k is None or q == k) and i is not None:
                        hit = True
                        if i[0] == "c":
                            add(st, "indexed", q)
                            continue
                        self.used(eng, st, [i], q)
                        drop(st, lambda t: t[0] == "ended" and t[1] == q)
                        add(st, "indexed", q)
        return hit

    def used(self, eng, st, args, k=None):
        """An element was put to its use: args are the values used."""
        hit = False
        for t in list(st.mon):
            if t[0] == "pend" and (k is None or t[1] == k):
                if any(t[2] in eng.origins(a) for a in args):
                    st.mon = st.mon - {t}
                    hit = True
        return hit

    def pending(self, st):
        return [t for t in st.mon if t[0] == "pend"]

    def ret(self, eng, st, f, v):
        """At a successful return of the root."""
        for t in st.mon:
            if t[0] == "pend":
                self.bad(eng, t[1], "skipped element", "%s can succeed without having %s one of %s it took" % (self.fn.pretty(), self.verb, self.what), f)
            elif t[0] == "open":
                self.bad(eng, t[1], "early end", "%s can succeed before the end of %s" % (self.fn.pretty(), self.what), f)

    def ended(self, st, k):
        return has(st, "ended", k)
