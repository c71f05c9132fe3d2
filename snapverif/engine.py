"""A path-sensitive interprocedural dataflow (typestate) analysis over MIR.

Values are provenance terms ("the result of the call at this site", "field f of
that", ...), not concrete data; every call of another crate is an opaque event.
Functions of the crate are inlined virtually (by call string), recursion is an
event as well.  At joins, states that agree are merged; the set of states is
finite because terms are named after program points, so loops are analysed to a
fixpoint.  A check supplies a Monitor: a property automaton that sees the
events and the branch outcomes of every path.  No solver and no execution is
involved; a branch is only pruned when the same value has already been tested
on the path (or is a constant of the program)."""
import os, re, time
from collections import defaultdict


# ---------------------------------------------------------------- values
class T(tuple):
    """A hash-consed term.  Terms are numbered as they are made, and hash by
    their number: an analysis takes the same course every time it is run
    (SNAPVERIF_SHUFFLE varies it, to find what depends on it)."""
    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o


_tab = {}
_mix = int(os.environ.get("SNAPVERIF_SHUFFLE", "0")) * 2 + 1


def mk(*a):
    t = _tab.get(a)
    if t is None:
        t = T(a)
        t.h = len(_tab) * _mix & 0xfffffffffffffff
        _tab[a] = t
    return t


UNIT = mk("c", "unit")
TRUE = mk("c", "int", 1, "bool")
FALSE = mk("c", "int", 0, "bool")
UNK = mk("c", "unk")
OPTION = "core::option::Option"
RESULT = "core::result::Result"
CFLOW = "core::ops::control_flow::ControlFlow"
EITHER = "either::Either"
COW = "alloc::borrow::Cow"
TYPEDKEY = "snapcd::key::TypedKey"


def tup(*xs):
    return mk("agg", "tuple", 0, tuple(xs))


def agg(adt, var, *xs):
    return mk("agg", adt, var, tuple(xs))


def some(x):
    return agg(OPTION, 1, x)


NONE = agg(OPTION, 0)


def ok(x):
    return agg(RESULT, 0, x)


def err(x):
    return agg(RESULT, 1, x)


def boolv(b):
    return TRUE if b else FALSE


_sidc = {}


def sids(v):
    """The call sites named in a term."""
    r = _sidc.get(v)
    if r is not None:
        return r
    s = set()
    k = v[0]
    if k in ("r", "o"):
        s.add(v[1])
    elif k == "mut":
        s.add(v[2])
    for x in v[1:]:
        if type(x) is T:
            s |= sids(x)
        elif type(x) in (tuple, frozenset):
            for y in x:
                if type(y) is T:
                    s |= sids(y)
                elif type(y) is tuple:
                    for z in y:
                        if type(z) is T:
                            s |= sids(z)
    r = frozenset(s)
    _sidc[v] = r
    return r


_kids = {}
_renc = {}


def _terms(v, out):
    """The terms a value, or a tuple of values, consists of (not those inside)."""
    if type(v) is T:
        out.add(v)
    elif type(v) in (tuple, frozenset):
        for x in v:
            _terms(x, out)


def rename(v, sid):
    """Occurrences of the previous result of `sid` become its 'old' results."""
    if type(v) is T:
        if sid not in sids(v):
            return v
        if v[0] == "r" and v[1] == sid:
            return mk("o", sid)
        n = _renc.get((v, sid))
        if n is None:
            n = _renc[v, sid] = mk(*[rename(x, sid) for x in v])
        return n
    if type(v) is tuple:
        return tuple(rename(x, sid) for x in v)
    if type(v) is frozenset:
        return frozenset(rename(x, sid) for x in v)
    return v


def has_sid(v, sid):
    if type(v) is T:
        return sid in sids(v)
    if type(v) in (tuple, frozenset):
        return any(has_sid(x, sid) for x in v)
    return False


# ---------------------------------------------------------------- names
def strip_generics(p):
    out, d, i = [], 0, 0
    while i < len(p):
        c = p[i]
        if c == "<":
            d += 1
        elif c == ">" and not (i and p[i - 1] == "-"):
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    s = "".join(out)
    while "::::" in s:
        s = s.replace("::::", "::")
    return s.strip(":")


_nn = {}


def norm(path):
    r = _nn.get(path)
    if r is None:
        r = strip_generics(path)
        r = re.sub(r"^(static_assertions::)?(core|alloc|std)::", "std::", r)
        _nn[path] = r
    return r


class Callee:
    __slots__ = ("id", "name", "trait", "method", "args", "tm", "info", "crate", "short")

    def __init__(self, info):
        self.info = info
        self.id = info.get("r") or info["id"]
        if info.get("rk") == "virtual":
            self.id = info["id"]
        self.trait = info.get("trait")
        self.method = info.get("method")
        self.args = info["args"]
        self.crate = info["id"].split("::")[0]
        if self.trait:
            self.tm = (self.trait.split("::")[-1], self.method)
            self.name = self.trait.split("::")[-1] + "::" + self.method
        else:
            self.tm = None
            self.name = norm(info["path"])
        self.short = "::".join(self.name.split("::")[-2:])

    def __repr__(self):
        return self.name


class Site:
    __slots__ = ("sid", "ctx", "fn", "bb", "span", "callee", "args", "tag", "dty", "item")

    def __init__(self, **k):
        for a, b in k.items():
            setattr(self, a, b)

    @property
    def name(self):
        return self.callee if isinstance(self.callee, str) else self.callee.name


def unbox(blocks):
    """vec![..] fills a new box through a raw pointer; here the box is its content."""
    ptr = {}
    for _, ss, t in blocks or ():
        for k, x in enumerate(ss):
            if x[0] != "=":
                continue
            if x[2][0] == "cast" and x[2][1] == "BoxDerefTransmute" and "MaybeUninit<" in x[2][3]["s"] and x[2][2][0] in ("cp", "mv"):
                l, path = x[2][2][1]
                if path and path[-1][:2] == ["f", 0]:
                    ptr[x[1][0]] = [l, path[:-1]]
                    # some address, for the checks that it is not null and aligned
                    ss[k] = ["=", x[1], ["use", ["k", ["int", 4096, {"s": "usize", "k": "o"}, ""]]]]
            elif x[1][0] in ptr and x[1][1][:1] == ["*"] and all(e[0] == "f" and e[2] == "value" for e in x[1][1][1:3]) and len(x[1][1]) >= 3:
                l, path = ptr[x[1][0]]
                ss[k] = ["=", [l, path + x[1][1][3:]]] + list(x[2:])
    return blocks


class Fn:
    def __init__(self, d, prog):
        self.d = d
        self.id = d["id"]
        self.kind = d["kind"]
        self.derived = d.get("derived", False)
        self.argc = d.get("argc", 0)
        self.blocks = unbox(d.get("blocks"))
        self.locals = d.get("locals")
        self.span = d["span"]
        self.prog = prog
        self.generics = d.get("generics", [])
        self._live = None
        self._dead_entry = None

    @property
    def short(self):
        s = self.id
        for p in ("snapcd::", "bin::"):
            if s.startswith(p):
                s = s[len(p):]
        return s

    def pretty(self):
        s = self.short
        d = self.d
        if "method" in d and d.get("self"):
            return "%s::%s" % (d["self"]["s"].split("<")[0].split("::")[-1], d["method"])
        return s

    # --- liveness
    def analyse(self):
        if self._live is not None:
            return
        n = len(self.blocks)
        addr = set()
        use, df, succ = [set() for _ in range(n)], [set() for _ in range(n)], [[] for _ in range(n)]

        def place_uses(p, w):
            """(uses, defs) of a place in write/read position"""
            u = set()
            for e in p[1]:
                if isinstance(e, list) and e[0] == "i":
                    u.add(e[1])
            if not w or p[1]:
                u.add(p[0])
            return u

        def op_uses(o):
            return place_uses(o[1], False) if o[0] in ("cp", "mv") else set()

        def rv_uses(r):
            k = r[0]
            if k == "use":
                return op_uses(r[1])
            if k == "ref":
                if not any(e in ("*", "*b") for e in r[2][1]):
                    addr.add(r[2][0])
                return place_uses(r[2], False)
            if k == "repeat":
                return op_uses(r[1])
            if k == "cast":
                return op_uses(r[2])
            if k == "bin":
                return op_uses(r[2]) | op_uses(r[3])
            if k == "un":
                return op_uses(r[2])
            if k == "discr":
                return place_uses(r[1], False)
            if k == "agg":
                s = set()
                for o in r[2]:
                    s |= op_uses(o)
                return s
            return set()

        for i, (c, ss, t) in enumerate(self.blocks):
            U, D = set(), set()

            def use_(s):
                U.update(x for x in s if x not in D)
            for s in ss:
                if s[0] == "=":
                    use_(rv_uses(s[2]))
                    use_(place_uses(s[1], True))
                    if not s[1][1]:
                        D.add(s[1][0])
                elif s[0] == "setd":
                    use_({s[1][0]})
            k = t[0]
            if k == "goto":
                succ[i] = [t[1]]
            elif k == "switch":
                use_(op_uses(t[1]))
                succ[i] = [b for _, b in t[2]] + [t[3]]
            elif k == "drop":
                succ[i] = [t[2]]
            elif k == "call":
                use_(op_uses(t[1]))
                for a in t[2]:
                    use_(op_uses(a))
                use_(place_uses(t[3], True))
                if not t[3][1]:
                    D.add(t[3][0])
                if t[4] is not None:
                    succ[i] = [t[4]]
            elif k == "assert":
                use_(op_uses(t[1]))
                succ[i] = [t[3]]
            elif k == "return":
                use_({0})
            use[i], df[i] = U, D
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                o = set()
                for s in succ[i]:
                    o |= live[s]
                x = use[i] | (o - df[i])
                if x != live[i]:
                    live[i] = x
                    ch = True
        preds = [0] * n
        for i in range(n):
            for s in set(succ[i]):
                preds[s] += 1
        self._succ = succ
        self._preds = preds
        self._addr = addr
        self._live = [frozenset(x | addr) for x in live]


class Program:
    def __init__(self, fns, adts):
        self.adts = adts
        self.fns = {k: Fn(v, self) for k, v in fns.items()}
        self.impls = defaultdict(list)   # (trait id, method) -> fn ids
        self.from_impls = {}
        for f in self.fns.values():
            d = f.d
            if d.get("trait"):
                self.impls[(d["trait"], d["method"])].append(f)
        self._cg = None
        self._cc = {}

    def callee(self, info):
        k = id(info)
        c = self._cc.get(k)
        if c is None:
            c = Callee(info)
            self._cc[k] = c
        return c

    def fn(self, fid):
        return self.fns.get(fid)

    def by_suffix(self, s):
        return [f for f in self.fns.values() if f.id.endswith(s)]

    def method(self, selfty, trait, method):
        """The function implementing trait::method for a local type."""
        for f in self.fns.values():
            d = f.d
            if d.get("method") == method and d.get("trait", "").endswith(trait) and d.get("self", {}).get("s", "").split("<")[0].endswith(selfty):
                return f
        for f in self.fns.values():
            d = f.d
            if d.get("intrait", "").endswith(trait) and d.get("method") == method and f.blocks:
                return f
        return None

    def resolve(self, c, tyenv):
        """The local function a call goes to, or None."""
        info = c.info
        if info.get("rk") == "virtual":
            if c.trait and c.trait.startswith("snapcd::"):
                return self._dispatch(c, None)
            return None
        r = info.get("r")
        if r:
            f = self.fns.get(r)
            if f is not None:
                if f.d.get("intrait") and f.blocks and c.trait and c.trait.startswith("snapcd::"):
                    # provided method: an implementation may override it
                    g = self._dispatch(c, self._selfty(c, tyenv))
                    return g or f
                return f
            if c.trait in ("core::convert::Into", "core::convert::TryInto"):
                return self._via_from(c, tyenv)
            return None
        if c.trait and (c.trait.startswith("snapcd::") or c.trait.startswith("bin::")):
            return self._dispatch(c, self._selfty(c, tyenv))
        if c.trait in ("core::convert::Into", "core::convert::TryInto"):
            return self._via_from(c, tyenv)
        if c.trait:
            st = self._selfty(c, tyenv)
            for f in self.impls.get((c.trait, c.method), ()):
                if _tyhead(f.d["self"]["s"]) == _tyhead(st or "") and st:
                    return f
        return self.fns.get(info["id"]) if not c.trait else None

    def _via_from(self, c, tyenv):
        tr = "core::convert::From" if c.method == "into" else "core::convert::TryFrom"
        m = "from" if c.method == "into" else "try_from"
        a = [tyenv.get(x, x) if tyenv else x for x in c.args]
        if len(a) < 2:
            return None
        for f in self.impls.get((tr, m), ()):
            if f.derived:
                continue
            if _tyhead(f.d["self"]["s"]) == _tyhead(a[1]) and f.d["targs"][1:2] and _tyhead(f.d["targs"][1]) == _tyhead(a[0]):
                return f
        return None

    def _selfty(self, c, tyenv):
        if not c.args:
            return None
        t = c.args[0]
        return tyenv.get(t, t) if tyenv else t

    def _dispatch(self, c, st):
        cands = [f for f in self.impls.get((c.trait, c.method), ())]
        if st:
            h = _tyhead(st)
            for f in cands:
                if _tyhead(f.d["self"]["s"]) == h:
                    return f
            # blanket implementations
            for f in cands:
                if re.fullmatch(r"[A-Z]\w*", f.d["self"]["s"]):
                    return f
        # the data store and the cache of the program
        for pref in ("SqliteDS", "SqliteCache"):
            for f in cands:
                if f.d["self"]["s"].endswith(pref):
                    # ambiguous traits (Transactional) are not guessed
                    if st is None or not any(g is not f and not g.d["self"]["s"].endswith("NullDS") for g in cands):
                        return f
        d = self.fns.get(c.trait + "::" + c.method)
        if d is not None and d.blocks and not [f for f in cands if not f.d["self"]["s"].endswith("NullDS")]:
            return d
        return None

    # --- call graph (conservative: every function value mentioned counts)
    def callgraph(self):
        if self._cg is not None:
            return self._cg
        cg = {}
        for f in self.fns.values():
            if not f.blocks:
                cg[f.id] = ([], set())
                continue
            edges = set()
            calls = []

            def konst(k):
                if k[0] == "fn":
                    c = self.callee(k[1])
                    g = self.resolve(c, None)
                    if g is not None:
                        edges.add(g.id)
                    elif c.trait and (c.trait.startswith("snapcd::") or c.trait.startswith("bin::")):
                        for h in self.impls.get((c.trait, c.method), ()):
                            if not h.d["self"]["s"].endswith("NullDS"):
                                edges.add(h.id)
                        if self.fns.get(c.trait + "::" + c.method):
                            edges.add(c.trait + "::" + c.method)
                    return c, g
                return None, None

            bodies = [f.blocks] + [p["blocks"] for p in f.d.get("promoted", [])]
            for bl in bodies:
                for b, ss, t in bl:
                    if b:
                        continue
                    for s in ss:
                        if s[0] != "=":
                            continue
                        for o in _ops(s[2]):
                            if o[0] == "k":
                                konst(o[1])
                        if s[2][0] == "agg" and s[2][1][0] == "closure":
                            edges.add(s[2][1][1])
                    if t[0] == "call":
                        if t[1][0] == "k":
                            c, g = konst(t[1][1])
                            if c is not None:
                                calls.append((c, g, t[6]))
                                # function items passed by type (zero sized)
                                for a in c.args:
                                    pass
                        for o in t[2]:
                            if o[0] == "k":
                                konst(o[1])
            cg[f.id] = (calls, edges)
        self._cg = cg
        return cg

    def reachable(self, roots):
        cg = self.callgraph()
        seen, st = set(), list(roots)
        while st:
            x = st.pop()
            if x in seen or x not in cg:
                continue
            seen.add(x)
            st.extend(cg[x][1])
        return seen


def _ops(r):
    k = r[0]
    if k == "use":
        return [r[1]]
    if k == "repeat":
        return [r[1]]
    if k == "cast":
        return [r[2]]
    if k == "bin":
        return [r[2], r[3]]
    if k == "un":
        return [r[2]]
    if k == "agg":
        return r[2]
    return []


def _tyhead(s):
    s = s.strip()
    s = re.sub(r"^(&('\w+ )?(mut )?)+", "", s)
    s = s.split("<")[0]
    return "::".join(s.split("::")[-1:])


# ---------------------------------------------------------------- state
class State:
    __slots__ = ("env", "facts", "mon")

    def __init__(self, env, facts, mon):
        self.env, self.facts, self.mon = env, facts, mon

    def copy(self):
        return State({k: dict(v) for k, v in self.env.items()}, dict(self.facts), self.mon)

    def sig(self):
        return (
            frozenset((k, frozenset(v.items())) for k, v in self.env.items()),
            frozenset(self.facts.items()),
            self.mon,
        )


class Budget(Exception):
    pass


class Monitor:
    """A property automaton.  st.mon is a frozenset of tuples."""
    init = frozenset()

    def opaque(self, eng, fn):
        """True if a local function is to be treated as one event."""
        return False

    def call(self, eng, st, ev):
        """Before any call (inlined or not)."""

    def result(self, eng, st, ev, v):
        """After an opaque call: None, or a list of (state, value)."""
        return None

    def fact(self, eng, st, v, val, eq):
        """A branch established v == val (eq) or v != val."""

    def agg(self, eng, st, adt, variant, fields, span, sid):
        """A struct or enum value is built."""

    def ret(self, eng, st, fn, ctx, v):
        """A function of the crate (inlined or root) returns."""

    def item(self, eng, st, ev, it, v):
        """An element v was taken from the base of iterator `it`: None or forks."""
        return None

    def end(self, eng, st, ev, it):
        """A base iterator is exhausted."""

    def store(self, eng, st, ctx, place, v):
        pass

    def kept(self, eng, st, site, v):
        """An element is kept in a container by collect or extend."""


class Event:
    __slots__ = ("sid", "callee", "fn", "args", "raw", "ctx", "bb", "span", "local", "argtys", "dty", "tyenv", "stack")

    def __init__(self, **k):
        for a, b in k.items():
            setattr(self, a, b)

    @property
    def name(self):
        return self.callee.name

    @property
    def tm(self):
        return self.callee.tm


IDENT_TM = {
    ("Clone", "clone"), ("ToOwned", "to_owned"), ("Deref", "deref"), ("DerefMut", "deref_mut"),
    ("AsRef", "as_ref"), ("AsMut", "as_mut"), ("Borrow", "borrow"), ("BorrowMut", "borrow_mut"), ("Into", "into"),
    ("From", "from"), ("ToString", "to_string"), ("FromStr", "from_str__"),
}
IDENT = {
    "std::path::PathBuf::from", "std::path::Path::to_path_buf", "std::path::PathBuf::as_path",
    "std::path::Path::new", "std::path::Path::as_os_str", "std::path::PathBuf::into_os_string",
    "std::boxed::Box::new", "std::rc::Rc::new", "std::sync::Arc::new", "std::borrow::Cow::into_owned",
    "std::string::String::as_str", "std::str::as_bytes", "std::string::String::as_bytes",
    "std::string::String::into_bytes", "std::slice::to_vec", "std::vec::Vec::as_slice",
    "std::vec::Vec::as_mut_slice", "std::slice::into_vec", "std::string::String::from",
    "std::option::Option::as_ref", "std::option::Option::as_mut", "std::option::Option::as_deref",
    "std::option::Option::as_deref_mut", "std::option::Option::copied", "std::option::Option::cloned",
    "std::result::Result::as_ref", "std::result::Result::as_mut", "std::result::Result::copied",
    "std::result::Result::cloned", "either::Either::as_ref", "either::Either::as_mut",
    "std::vec::Vec::into_boxed_slice", "std::mem::ManuallyDrop::new", "std::convert::identity",
    "std::hint::black_box", "std::ffi::OsStr::to_os_string", "std::path::Path::into_path_buf",
    "std::boxed::Box::into_inner", "std::iter::Iterator::by_ref", "std::string::String::into_boxed_str",
    "std::str::to_owned", "std::vec::Vec::into_iter", "std::string::String::as_mut_str",
    "std::vec::Vec::as_ref", "std::path::Path::as_ref", "std::array::as_slice", "std::num::NonZero::get",
}
ITER_METHODS = {
    "std::slice::iter", "std::slice::iter_mut", "std::vec::Vec::iter", "std::vec::Vec::drain",
    "std::collections::HashMap::iter", "std::collections::HashSet::iter",
    "std::collections::hash_map::HashMap::iter", "std::collections::hash_set::HashSet::iter",
    "std::collections::HashMap::into_iter", "std::collections::BTreeMap::iter", "std::collections::BTreeSet::iter",
    "std::collections::HashMap::drain", "std::collections::HashSet::drain", "std::collections::VecDeque::iter",
    "std::option::Option::iter",
}
FRESH = re.compile(r"^std::(vec::Vec|collections::(\w+::)*\w+)::(new|with_capacity)$")
LAZY = {
    "map", "filter", "filter_map", "enumerate", "zip", "rev", "take", "skip", "cloned", "copied", "inspect",
    "chain", "take_while", "skip_while", "map_while", "flat_map", "flatten", "peekable", "step_by", "fuse",
    "by_ref", "scan",
}
CONSUME = {
    "collect", "for_each", "try_for_each", "fold", "try_fold", "count", "all", "any", "find", "find_map",
    "position", "last", "sum", "product", "max", "min", "max_by_key", "min_by_key", "max_by", "min_by", "unzip",
    "partition", "reduce", "eq", "ne", "cmp", "lt", "gt", "nth", "collect_into", "is_sorted",
}
CLONE_CONTAINERS = re.compile(r"Vec<|HashMap<|HashSet<|String|PathBuf|BTree")


class Engine:
    MAXDEPTH = 24

    def __init__(self, prog, monitor, budget=4000000, cap=600):
        self.prog = prog
        self.mon = monitor
        self.sites = {}
        self._sitek = {}
        self.ctxs = {}
        self._ctxk = {}
        self.budget = budget
        self.steps = 0
        self.until = time.monotonic() + 500
        self.cap = cap
        self.stack = []
        self.visited_fns = set()
        self.merges = 0
        self.nsites = set()
        self.opaque_calls = set()
        self.muts = defaultdict(set)
        self._given = {}
        self.enums = {}             # sites of enumeration indexes -> the elements they count

    # --- naming of program points
    def ctx(self, parent, bb, fid, extra=None):
        k = (parent, bb, fid, extra)
        c = self._ctxk.get(k)
        if c is None:
            c = len(self.ctxs) + 1
            self._ctxk[k] = c
            self.ctxs[c] = k
        return c

    def site(self, ctx, bb, tag, fn, span, callee, dty=None, item=None):
        k = (ctx, bb, tag)
        s = self._sitek.get(k)
        if s is None:
            sid = len(self.sites) + 1
            s = Site(sid=sid, ctx=ctx, fn=fn, bb=bb, span=span, callee=callee, args=set(), tag=tag, dty=dty, item=item)
            self._sitek[k] = s
            self.sites[sid] = s
        return s

    def chain(self, ctx):
        out = []
        while ctx:
            p, bb, fid, ex = self.ctxs[ctx]
            f = self.prog.fn(fid)
            if p:
                pf = self.prog.fn(self.ctxs[p][2])
                out.append("%s (called from %s)" % (f.pretty() if f else fid, pf.pretty() if pf else "?"))
            else:
                out.append(f.pretty() if f else fid)
            ctx = p
        return out

    # --- opaque results
    def fresh(self, st, s):
        """The result of executing site s now; earlier results become 'old'."""
        v = mk("r", s.sid)
        sid = s.sid
        for c, e in st.env.items():
            for l, x in list(e.items()):
                if sid in sids(x):
                    e[l] = rename(x, sid)
        for x in list(st.facts):
            if sid in sids(x):
                del st.facts[x]
        if st.mon and any(has_sid(t, sid) for t in st.mon):
            st.mon = frozenset(rename(t, sid) for t in st.mon)
        return v

    def mutate(self, st, old, sid):
        """A value changed in place by an external call.  Its identity is that of
        the original value and of the first such change; what flows in is kept
        in a table."""
        if old[0] == "mut":
            new = old
        elif old[0] == "or" and any(x[0] == "mut" for x in old[1]):
            # one of several values, some of them changed before
            new = mk("mut", self.join([x[1] if x[0] == "mut" else x for x in old[1]]), sid)
            for x in old[1]:
                if x[0] == "mut":
                    self.muts[new] |= self.muts[x]
        else:
            new = mk("mut", old, sid)
        self.muts[new].add(sid)
        for f in list(st.facts):
            if self._mentions(f, old):
                del st.facts[f]
        return new

    def _mentions(self, f, v):
        if f is v:
            return True
        for x in f[1:]:
            if type(x) is T and self._mentions(x, v):
                return True
        return False

    # --- memory
    def load_ref(self, st, r):
        _, c, l, path = r
        v = st.env.get(c, {}).get(l, UNK)
        for e in path:
            v = self.proj(v, e, st)
        return v

    def deref(self, st, v):
        n = 0
        while v[0] == "ref":
            v = self.load_ref(st, v)
            n += 1
            if n > 50:
                return UNK
        return v

    def resolve(self, st, v, d=0):
        """Snapshot of a value: references are replaced by what they refer to."""
        k = v[0]
        if k == "ref":
            if d > 30:
                return UNK
            return self.resolve(st, self.load_ref(st, v), d + 1)
        if k == "agg":
            if any(type(x) is T for x in v[3]):
                return mk("agg", v[1], v[2], tuple(self.resolve(st, x, d + 1) for x in v[3]))
            return v
        if k == "clo":
            return mk("clo", v[1], tuple(self.resolve(st, x, d + 1) for x in v[2]), v[3])
        if k == "it":
            return mk("it", v[1], tuple(self.resolve(st, x, d + 1) for x in v[2]), v[3])
        if k == "ov":
            return mk("ov", self.resolve(st, v[1], d + 1), tuple((i, self.resolve(st, x, d + 1)) for i, x in v[2]))
        return v

    def proj(self, v, e, st=None):
        k = e[0]
        if v[0] == "ref" and st is not None:
            v = self.deref(st, v)
        if k == "f":
            i, name = e[1], e[2]
            if v[0] == "agg":
                fs = v[3]
                if v[1] == "array":
                    return mk("f", v, "[]")
                if i < len(fs):
                    return fs[i]
                return UNK
            if v[0] == "clo":
                return v[2][i] if i < len(v[2]) else UNK
            if v[0] == "ov":
                for j, x in v[2]:
                    if j == i:
                        return x
                return self.proj(v[1], e, st)
            if name == "inner":
                return v
            if v[0] == "c":
                return UNK
            if v[0] == "or":
                return self.join([self.proj(x, e, st) for x in v[1]])
            return mk("f", v, name if name else i)
        if k == "vf":   # field i of variant var
            var, i, name = e[1], e[2], e[3]
            if v[0] == "agg":
                if v[2] == var and i < len(v[3]):
                    return v[3][i]
                return UNK
            if v[0] == "ov":
                for j, x in v[2]:
                    if j == i:
                        return x
                v = v[1]
            if v[0] == "or":
                return self.join([self.proj(x, e, st) for x in v[1] if not (x[0] == "agg" and x[2] != var)])
            return mk("v", v, var, i)
        if k == "i":
            if v[0] == "agg" and v[1] == "array" and len(e) > 1 and e[1] is not None and e[1] < len(v[3]):
                return v[3][e[1]]
            if v[0] == "agg" and v[1] == "array" and v[3] and all(x is v[3][0] for x in v[3]):
                return v[3][0]
            if len(e) > 1 and e[1] is not None:
                return mk("f", v, "[]", mk("c", "int", e[1], "usize"))
            if len(e) > 2:
                return mk("f", v, "[]", e[2])
            return mk("f", v, "[]")
        if k == "sl":
            if v[0] == "agg" and v[1] == "array":
                return mk("agg", "array", 0, v[3][e[1]:len(v[3]) - e[2] if e[3] else e[2]])
            return mk("f", v, "[..]", e[1], e[2], e[3])
        return v

    def join(self, vs):
        s = set()
        for v in vs:
            if v[0] == "or":
                s |= v[1]
            else:
                s.add(v)
        if not s:
            return UNK
        if len(s) == 1:
            return next(iter(s))
        return mk("or", frozenset(s))

    def path_of(self, p, st=None, ctx=None):
        """MIR projection list -> our path elements; stops are derefs."""
        out = []
        els = p[1]
        i = 0
        while i < len(els):
            e = els[i]
            if e == "*":
                out.append(("*",))
            elif e == "*b" or e == "cast":
                pass
            elif e[0] == "f":
                if e[3]:
                    pass  # through Box/Unique/NonNull
                else:
                    out.append(("f", e[1], e[2]))
            elif e[0] == "d":
                # downcast, followed by a field
                if i + 1 < len(els) and isinstance(els[i + 1], list) and els[i + 1][0] == "f":
                    f = els[i + 1]
                    out.append(("vf", e[1], f[1], f[2]))
                    i += 1
            elif e[0] == "i":
                x = st.env.get(ctx, {}).get(e[1]) if st is not None else None
                if x is not None and x[0] == "ref":
                    x = self.deref(st, x)
                if x is None:
                    out.append(("i",))
                elif x[0] == "c" and x[1] == "int":
                    out.append(("i", x[2]))
                else:
                    out.append(("i", None, x))
            elif e[0] == "ci":
                out.append(("i", e[1] if not e[3] else None))
            elif e[0] == "sub":
                if e[1] or e[2] or not e[3]:
                    out.append(("sl", e[1], e[2], e[3]))
            i += 1
        return out

    def read(self, st, ctx, p):
        v = st.env.get(ctx, {}).get(p[0], UNK)
        for e in self.path_of(p, st, ctx):
            if e[0] == "*":
                v = self.load_ref(st, v) if v[0] == "ref" else v
            else:
                v = self.proj(v, e, st)
        return v

    def locate(self, st, ctx, p):
        """('ref', ctx, local, path) for a place, or the opaque value it lies in
        plus the remaining path."""
        c, l, path = ctx, p[0], ()
        base = None
        for e in self.path_of(p, st, ctx):
            if base is not None:
                if e[0] == "*":
                    base = self.deref(st, base) if base[0] == "ref" else base
                    continue
                base = self.proj(base, e, st)
                continue
            if e[0] == "*":
                v = self.load_ref(st, mk("ref", c, l, path))
                if v[0] == "ref":
                    c, l, path = v[1], v[2], v[3]
                else:
                    base = v
            else:
                path = path + (e,)
        if base is not None:
            return None, base
        return mk("ref", c, l, path), None

    def write_loc(self, st, r, val):
        _, c, l, path = r
        env = st.env.setdefault(c, {})
        if not path:
            env[l] = val
            return
        # a reference in the middle redirects the store
        v = env.get(l, UNK)
        env[l] = self.upd(st, v, path, val)

    def upd(self, st, v, path, val):
        if not path:
            return val
        e = path[0]
        if v[0] == "ref":
            r = mk("ref", v[1], v[2], v[3] + tuple(path))
            self.write_loc(st, r, val)
            return v
        if e[0] == "f":
            i = e[1]
            if v[0] == "agg" and v[1] != "array" and i < len(v[3]):
                fs = list(v[3])
                fs[i] = self.upd(st, fs[i], path[1:], val)
                return mk("agg", v[1], v[2], tuple(fs))
            if v[0] == "clo" and i < len(v[2]):
                fs = list(v[2])
                fs[i] = self.upd(st, fs[i], path[1:], val)
                return mk("clo", v[1], tuple(fs), v[3])
            if e[2] == "inner" and len(path) == 1:
                return val
            cur = self.proj(v, e, st)
            new = self.upd(st, cur, path[1:], val)
            if v[0] == "ov":
                d = dict(v[2])
                d[i] = new
                return mk("ov", v[1], tuple(sorted(d.items(), key=lambda x: x[0])))
            return mk("ov", v, ((i, new),))
        if e[0] == "vf":
            var, i = e[1], e[2]
            if v[0] == "agg" and v[2] == var and i < len(v[3]):
                fs = list(v[3])
                fs[i] = self.upd(st, fs[i], path[1:], val)
                return mk("agg", v[1], v[2], tuple(fs))
            cur = self.proj(v, e, st)
            new = self.upd(st, cur, path[1:], val)
            if v[0] == "ov":
                d = dict(v[2])
                d[i] = new
                return mk("ov", v[1], tuple(sorted(d.items(), key=lambda x: x[0])))
            return mk("ov", v, ((i, new),))
        # element of an array or slice: weak update, unless it is known which
        if v[0] == "agg" and v[1] == "array" and e[0] == "i" and len(e) > 1 and e[1] is not None and e[1] < len(v[3]):
            fs = list(v[3])
            fs[e[1]] = self.upd(st, fs[e[1]], path[1:], val)
            return mk("agg", "array", 0, tuple(fs))
        s = self.site(0, 0, ("elem",) + tuple(sorted(sids(v))) + tuple(sorted(sids(val))), None, "", "elem-store")
        s.args.add((val,))
        return self.mutate(st, v, s.sid)

    # --- operands and rvalues
    def operand(self, st, ctx, fn, o):
        if o[0] in ("cp", "mv"):
            return self.read(st, ctx, o[1])
        if o[0] == "k":
            return self.konst(o[1], fn)
        return UNK

    def konst(self, k, fn):
        if k[0] == "fn":
            return self._fnval(k[1])
        if k[0] == "int":
            return mk("c", "int", int(k[1]), k[2]["s"])
        if k[0] in ("bytes", "blob"):
            return mk("c", "bytes", k[1])
        if k[0] == "static":
            f = self.prog.fn(k[1])
            if f is not None and f.d.get("bytes"):
                return mk("c", "bytes", f.d["bytes"])
            return mk("c", "static", k[1])
        if k[0] == "zst":
            t = k[1]
            if t["k"] == "closure":
                return mk("clo", t["id"], (), None)
            if t["s"] == "()":
                return UNIT
            return mk("c", "zst", t["s"])
        if k[0] == "promoted":
            return self.promoted(k[1], k[2])
        if k[0] == "const":
            t = k[2]["s"] if isinstance(k[2], dict) else str(k[2])
            m = re.match(r"^(?:const )?([\w:]+)::(\w+)$", k[1])
            return mk("c", "const", k[1], t)
        return UNK

    def _fnval(self, info):
        key = (info["id"], info.get("r"), tuple(info["args"]))
        if not hasattr(self.prog, "_fv"):
            self.prog._fv = {}
        self.prog._fv.setdefault(key, info)
        return mk("c", "fn", key)

    def fninfo(self, v):
        return self.prog._fv[v[2]]

    def promoted(self, fid, idx):
        key = (fid, idx)
        if not hasattr(self, "_prom"):
            self._prom = {}          # its results are this engine's own
        r = self._prom.get(key)
        if r is not None:
            return r
        f = self.prog.fn(fid)
        if f is None or idx >= len(f.d.get("promoted", [])):
            return UNK
        body = f.d["promoted"][idx]
        st = State({-1: {}}, {}, frozenset())
        bb = 0
        n = 0
        while n < 50:
            n += 1
            _, ss, t = body["blocks"][bb]
            for s in ss:
                if s[0] == "=":
                    v = self.rvalue(st, -1, f, s[2], bb)
                    r, base = self.locate(st, -1, s[1])
                    if r is not None:
                        self.write_loc(st, r, v)
            if t[0] == "goto":
                bb = t[1]
            elif t[0] == "drop":
                bb = t[2]
            elif t[0] == "assert":
                bb = t[3]
            elif t[0] == "call" and t[4] is not None:
                info = t[1][1][1] if t[1][0] == "k" and t[1][1][0] == "fn" else None
                args = [self.resolve(st, self.operand(st, -1, f, a)) for a in t[2]]
                s = self.site(0, bb, ("prom", fid, idx), f, t[6], self.prog.callee(info) if info else "dyn")
                s.args.add(tuple(args))
                st.env[-1][t[3][0]] = mk("r", s.sid)
                bb = t[4]
            else:
                break
        r = self.resolve(st, st.env[-1].get(0, UNK))
        self._prom[key] = r
        return r

    def rvalue(self, st, ctx, fn, r, bb, dst=None):
        k = r[0]
        if k == "use":
            return self.operand(st, ctx, fn, r[1])
        if k == "ref":
            loc, base = self.locate(st, ctx, r[2])
            if loc is None:
                return base
            v = None
            if not loc[3]:
                v = st.env.get(loc[1], {}).get(loc[2])
                if v is not None and v[0] == "ref" and not r[1]:
                    pass
            return loc
        if k == "cast":
            v = self.operand(st, ctx, fn, r[2])
            if r[1] == "Narrow" and v[0] != "c":
                v = self.resolve(st, v)
                if v[0] == "c":
                    return v
                s = self.site(ctx, bb, ("un", r[1], dst), fn, "", "un:Narrow")
                s.args.add((v,))
                return self.fresh(st, s)
            return v
        if k == "bin":
            a = self.operand(st, ctx, fn, r[2])
            b = self.operand(st, ctx, fn, r[3])
            return self.binop(st, ctx, fn, bb, r[1], self.resolve(st, a), self.resolve(st, b), dst)
        if k == "un":
            v = self.resolve(st, self.operand(st, ctx, fn, r[2]))
            if r[1] == "Not":
                return self.vnot(v)
            s = self.site(ctx, bb, ("un", r[1], dst), fn, "", "un:" + r[1])
            s.args.add((v,))
            return self.fresh(st, s)
        if k == "discr":
            v = self.read(st, ctx, r[1])
            v = self.deref(st, v)
            if v[0] == "agg" and v[1] not in ("tuple", "array"):
                return mk("c", "int", self.discr_of(v[1], v[2]), "discr")
            while v[0] == "ov":
                v = v[1]
            return mk("discr", v)
        if k == "repeat":
            v = self.operand(st, ctx, fn, r[1])
            n = r[2]
            if isinstance(n, int) and n <= 16 and v[0] != "c":
                return mk("agg", "array", 0, tuple([v] * n))
            return mk("rep", v, n if isinstance(n, int) else -1)
        if k == "agg":
            ops = tuple(self.operand(st, ctx, fn, o) for o in r[2])
            kk = r[1]
            if kk[0] == "tuple":
                return UNIT if not ops else tup(*ops)
            if kk[0] == "array":
                return mk("agg", "array", 0, ops)
            if kk[0] == "closure":
                return mk("clo", kk[1], ops, self._tyenvkey(fn))
            if kk[0] == "adt":
                if kk[1] == TYPEDKEY:
                    return ops[0]
                return mk("agg", kk[1], kk[2], ops)
            return UNK
        return UNK

    def _tyenvkey(self, fn):
        return tuple(sorted(self.stack[-1][2].items())) if self.stack else ()

    def discr_of(self, adt, var):
        a = self.prog.adts.get(adt)
        if a and var < len(a["v"]):
            return int(a["v"][var][2])
        return var

    def variant_of(self, adt, d):
        a = self.prog.adts.get(adt)
        if a:
            for i, v in enumerate(a["v"]):
                if int(v[2]) == d:
                    return i
        return d

    def vnot(self, v):
        if v[0] == "c" and v[1] == "int" and v[3] == "bool":
            return boolv(not v[2])
        if v[0] == "un" and v[1] == "Not":
            return v[2]
        return mk("un", "Not", v)

    def binop(self, st, ctx, fn, bb, op, a, b, dst):
        op = op.replace("WithOverflow", "").replace("Unchecked", "")
        if op in ("Eq", "Ne"):
            return self.veq(a, b, op == "Ne")
        if op in ("Lt", "Le", "Gt", "Ge"):
            if a[0] == b[0] == "c" and a[1] == b[1] == "int":
                x, y = a[2], b[2]
                return boolv({"Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op])
            if op == "Gt":
                op, a, b = "Lt", b, a
            elif op == "Ge":
                op, a, b = "Le", b, a
            if op == "Le":       # a <= b  is  not (b < a)
                return self.vnot(mk("bin", "Lt", b, a))
            return mk("bin", op, a, b)
        if op in ("BitAnd", "BitOr") and (self._isbool(a) or self._isbool(b)):
            return mk("bin", op, a, b)
        if a[0] == b[0] == "c" and a[1] == b[1] == "int":
            # constants written as 1 << n or N / 2
            if op in ("Shl", "ShlUnchecked") and 0 <= b[2] < 64 and 0 <= a[2] << b[2] < 1 << 31:
                return mk("c", "int", a[2] << b[2], a[3])
            if op == "Div" and a[2] >= 0 and b[2] > 0:
                return mk("c", "int", a[2] // b[2], a[3])
            if op in ("Sub", "SubUnchecked") and b[2] == 0:
                return a
        s = self.site(ctx, bb, ("bin", op, dst), fn, "", "bin:" + op)
        s.args.add((a, b))
        v = self.fresh(st, s)
        return v

    def lenof(self, st, x):
        """How many elements a buffer made with a fixed number of them (`[x; N]`, `vec![x; N]`), or a slice of one, has; or None."""
        while x[0] == "mut" and re.match(r"^(Read::read|IndexMut::index_mut|DerefMut::deref_mut|std::slice::\w+|std::vec::Vec::as_mut_slice)$", self.sites[x[2]].name):
            x = x[1]
        if x[0] == "rep":
            return x[2] if x[2] >= 0 else None
        if x[0] == "agg" and x[1] == "array":
            return len(x[3])
        if x[0] != "r":
            return None
        for t in st.mon:
            if t[0] == "len" and t[1] is x:
                return t[2]
        s = self.sites[x[1]]
        if s.name == "std::vec::from_elem" and len(s.args) == 1:
            n = next(iter(s.args))[1]
            if n[0] == "c" and n[1] == "int":
                return n[2]
        return None

    def slicelen(self, st, args):
        r = args[1]
        if r[0] != "agg" or not r[1].startswith("core::ops::range::"):
            return None
        n = self.lenof(st, args[0])
        c = [y[2] if y[0] == "c" and y[1] == "int" else None for y in r[3]]
        if n is None or None in c:
            return None
        k = r[1].split("::")[-1]
        if k not in ("Range", "RangeFrom", "RangeTo"):
            return None
        lo, hi = {"Range": lambda: c, "RangeFrom": lambda: (c[0], n), "RangeTo": lambda: (0, c[0])}[k]()
        return hi - lo if lo <= hi else None

    def _isbool(self, v):
        return v in (TRUE, FALSE) or v[0] == "un" or (v[0] == "bin" and v[1] in ("Eq", "Lt", "BitAnd", "BitOr"))

    def veq(self, a, b, ne=False):
        if a[0] == "c" and b[0] == "c" and a[1] == b[1] and a[1] in ("int", "bytes"):
            r = a[2] == b[2]
            return boolv(r != ne)
        if a is b and a[0] in ("c",):
            return boolv(not ne)
        # comparing a bool with a constant
        for x, y in ((a, b), (b, a)):
            if y in (TRUE, FALSE):
                v = x if (y is TRUE) else self.vnot(x)
                return self.vnot(v) if ne else v
        # comparing enum values: fieldless constants compare by discriminant
        for x, y in ((a, b), (b, a)):
            if y[0] == "agg" and y[1] not in ("tuple", "array") and not y[3] and x[0] != "agg":
                v = mk("bin", "Eq", mk("discr", x), mk("c", "int", self.discr_of(y[1], y[2]), "discr"))
                return self.vnot(v) if ne else v
        if a[0] == "agg" and b[0] == "agg" and a[1] == b[1] and a[1] not in ("tuple", "array"):
            if a[2] != b[2]:
                return boolv(ne)
            if not a[3]:
                return boolv(not ne)
        if repr(a) > repr(b):
            a, b = b, a
        v = mk("bin", "Eq", a, b)
        return self.vnot(v) if ne else v

    # --- facts
    def known(self, st, v):
        """('=', n) / ('!', {n..}) / None for an int/bool/discr value."""
        if v[0] == "c" and v[1] == "int":
            return ("=", v[2])
        f = st.facts.get(v)
        if f is not None:
            return f
        if v[0] == "un" and v[1] == "Not":
            k = self.known(st, v[2])
            if k and k[0] == "=":
                return ("=", 0 if k[1] else 1)
            if k and k[0] == "!" and k[1] & {0, 1}:
                return ("=", 0 if 0 in k[1] else 1)
        if v[0] == "bin" and v[1] in ("BitAnd", "BitOr"):
            a, b = self.known(st, v[2]), self.known(st, v[3])
            z = 0 if v[1] == "BitAnd" else 1
            if a == ("=", z) or b == ("=", z):
                return ("=", z)
            if a == ("=", 1 - z) and b == ("=", 1 - z):
                return ("=", 1 - z)
        if v[0] == "bin" and v[1] == "Eq":
            x, y = v[2], v[3]
            for p, q in ((x, y), (y, x)):
                if q[0] == "c" and q[1] == "int":
                    k = self.known(st, p)
                    if k:
                        if k[0] == "=":
                            return ("=", 1 if k[1] == q[2] else 0)
                        if q[2] in k[1]:
                            return ("=", 0)
        return None

    def assume(self, st, v, n, eq=True):
        """Restrict st to v == n (or v != n).  False if infeasible."""
        k = self.known(st, v)
        if k is not None:
            if k[0] == "=":
                return (k[1] == n) == eq
            if eq and n in k[1]:
                return False
        if v[0] == "c":
            return True
        if v[0] == "un" and v[1] == "Not":
            if eq:
                return self.assume(st, v[2], 0 if n else 1, True)
            return self.assume(st, v[2], 1 if n else 0, True) if n in (0, 1) else True
        isb = v[0] == "bin" and v[1] in ("Eq", "Lt", "BitAnd", "BitOr")
        if isb and not eq:
            n, eq = 1 - n, True
        if eq:
            st.facts[v] = ("=", n)
        else:
            old = k[1] if k else frozenset()
            st.facts[v] = ("!", old | {n})
        if v[0] == "bin":
            if v[1] == "BitAnd" and eq and n == 1:
                if not (self.assume(st, v[2], 1) and self.assume(st, v[3], 1)):
                    return False
            if v[1] == "BitOr" and eq and n == 0:
                if not (self.assume(st, v[2], 0) and self.assume(st, v[3], 0)):
                    return False
            if v[1] == "Eq":
                for p, q in ((v[2], v[3]), (v[3], v[2])):
                    if q[0] == "c" and q[1] == "int":
                        if not self.assume(st, p, q[2], n == 1):
                            return False
        self.mon.fact(self, st, v, n, eq)
        return True

    def variants(self, st, v, adt):
        """Splits st by the variant of v.  [(state, variant, payload...)]"""
        v = self.deref(st, v)
        a = self.prog.adts.get(adt)
        nf = {OPTION: [0, 1], RESULT: [1, 1], CFLOW: [1, 1], EITHER: [1, 1]}.get(adt)
        if v[0] == "agg" and v[1] == adt:
            return [(st, v[2], v[3])]
        if v[0] == "or":
            out = []
            for x in v[1]:
                out.extend(self.variants(st.copy(), x, adt))
            return out
        base = v
        while base[0] == "ov":
            base = base[1]
        out = []
        n = len(nf) if nf else len(a["v"])
        for i in range(n):
            s2 = st.copy()
            if self.assume(s2, mk("discr", base), self.discr_of(adt, i)):
                cnt = nf[i] if nf else len(a["v"][i][1])
                out.append((s2, i, tuple(self.proj(v, ("vf", i, j, ""), s2) for j in range(cnt))))
        return out

    # --- running
    def run(self, fid, args=None, mon=None):
        fn = self.prog.fn(fid)
        if fn is None:
            raise KeyError(fid)
        st = State({}, {}, self.mon.init if mon is None else mon)
        if args is None:
            args = [mk("p", fid, i) for i in range(fn.argc)]
        ctx = self.ctx(0, 0, fid)
        # What a call was given is collected over all paths; a rule that asks
        # while the paths are still being followed may have seen only some.
        # So the paths are followed again once everything is known.
        for again in range(3):
            self.stack = []
            had = self.learnt()
            start = self.steps
            outs = self.call_fn(State({}, {}, st.mon), fn, list(args), ctx, {})
            self.budget += self.steps - start
            if self.learnt() == had or (not again and all(len(s.args) < 2 for s in self.sites.values())):
                break
        return outs

    def learnt(self):
        return sum(len(s.args) for s in self.sites.values()), sum(len(x) for x in self.muts.values())

    def call_fn(self, st, fn, args, ctx, tyenv):
        """Analyse fn's body.  Returns [(state, return value)]."""
        fn.analyse()
        self.visited_fns.add(fn.id)
        self.stack.append((fn.id, ctx, tyenv))
        st.env[ctx] = {i + 1: a for i, a in enumerate(args)}
        outs = {}
        seen = defaultdict(set)
        counts = defaultdict(list)
        work = [(0, st)]
        try:
            while work:
                bb, st = work.pop()
                while True:
                    self.steps += 1
                    if self.steps > self.budget or not self.steps & 255 and time.monotonic() > self.until:
                        raise Budget("analysis budget exceeded in " + fn.id)
                    if fn._preds[bb] > 1 or bb == 0:
                        self.gc(st, ctx, fn._live[bb])
                        sg = st.sig()
                        if sg in seen[bb]:
                            break
                        if len(seen[bb]) > self.cap:
                            st = self.widen(st, counts[bb])
                            if st is None:
                                break
                            sg = st.sig()
                            if sg in seen[bb]:
                                break
                        seen[bb].add(sg)
                        counts[bb].append(st.copy())
                    nxt = self.block(st, fn, ctx, bb)
                    if nxt is None:      # return
                        v = st.env[ctx].get(0, UNIT)
                        self.mon.ret(self, st, fn, ctx, v)
                        v = self.escape(st, v, ctx)
                        st.env.pop(ctx, None)
                        self.gcfacts(st, v)
                        k = (st.sig(), v)
                        if k not in outs:
                            outs[k] = (st, v)
                        break
                    if not nxt:
                        break
                    for b2, s2 in nxt[1:]:
                        work.append((b2, s2))
                    bb, st = nxt[0]
        finally:
            self.stack.pop()
        return list(outs.values())

    def escape(self, st, v, ctx):
        """References into a frame that goes away become snapshots."""
        def f(v, d=0):
            if v[0] == "ref":
                if v[1] == ctx:
                    return f(self.load_ref(st, v), d + 1) if d < 30 else UNK
                return v
            if v[0] == "agg":
                return mk("agg", v[1], v[2], tuple(f(x, d + 1) for x in v[3]))
            if v[0] == "clo":
                return mk("clo", v[1], tuple(f(x, d + 1) for x in v[2]), v[3])
            if v[0] == "it":
                return mk("it", v[1], tuple(f(x, d + 1) for x in v[2]), v[3])
            if v[0] == "ov":
                return mk("ov", f(v[1], d + 1), tuple((i, f(x, d + 1)) for i, x in v[2]))
            return v
        return f(v)

    def widen(self, st, olds):
        """Too many states here: merge with those that agree on the monitor."""
        self.merges += 1
        same = [o for o in olds if o.mon == st.mon and set(o.env) == set(st.env)]
        if not same:
            return st
        o = same[-1]
        env = {}
        for c in st.env:
            a, b = o.env[c], st.env[c]
            env[c] = {l: (a[l] if a[l] is b[l] else self.joinv(a[l], b[l])) for l in a if l in b}
        facts = {k: v for k, v in o.facts.items() if st.facts.get(k) == v}
        return State(env, facts, st.mon)

    def joinv(self, a, b):
        v = self.join([a, b])
        if v[0] == "or" and len(v[1]) > 8:
            return UNK
        return v

    def gc(self, st, ctx, live):
        e = st.env[ctx]
        for l in list(e):
            if l not in live:
                del e[l]
        self.gcfacts(st)

    def gcfacts(self, st, extra=None):
        if not st.facts:
            return
        s = set()
        for e in st.env.values():
            for v in e.values():
                s |= sids(v)
        if extra is not None:
            s |= sids(extra)
        for v in list(st.facts):
            z = sids(v)
            if not z <= s:
                del st.facts[v]

    def block(self, st, fn, ctx, bb):
        """Executes one block.  None for return, else [(next block, state)]."""
        _, ss, t = fn.blocks[bb]
        env = st.env[ctx]
        for i, s in enumerate(ss):
            if s[0] == "=":
                v = self.rvalue(st, ctx, fn, s[2], bb, i)
                if s[2][0] == "agg" and s[2][1][0] == "adt":
                    self.mon.agg(self, st, s[2][1][1], s[2][1][2], v, s[3], ctx)
                r, base = self.locate(st, ctx, s[1])
                if r is not None:
                    self.write_loc(st, r, v)
                self.mon.store(self, st, ctx, (r, base, s[1]), v)
            elif s[0] == "dead":
                env = st.env[ctx]
                env.pop(s[1], None)
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "return":
            return None
        if k == "drop":
            return [(t[2], st)]
        if k == "assert":
            c = self.resolve(st, self.operand(st, ctx, fn, t[1]))
            return [(t[3], st)]
        if k == "switch":
            v = self.operand(st, ctx, fn, t[1])
            v = self.resolve(st, v)
            out = []
            kn = self.known(st, v)
            if kn and kn[0] == "=":
                for n, b in t[2]:
                    if n == kn[1]:
                        return [(b, st)]
                return [(t[3], st)]
            for n, b in t[2]:
                if fn.blocks[b][2][0] == "unreachable" and not fn.blocks[b][1]:
                    continue
                s2 = st.copy()
                if self.assume(s2, v, n, True):
                    out.append((b, s2))
            b = t[3]
            if not (fn.blocks[b][2][0] == "unreachable" and not fn.blocks[b][1]):
                s2 = st.copy()
                feas = True
                if t[4] == "bool" and len(t[2]) == 1:
                    feas = self.assume(s2, v, 1 - t[2][0][0], True)
                else:
                    for n, _ in t[2]:
                        if not self.assume(s2, v, n, False):
                            feas = False
                            break
                    if feas and v[0] == "discr":
                        feas = self._complement(s2, v, fn, t)
                if feas:
                    out.append((b, s2))
            return out
        if k == "call":
            outs = self.do_call(st, fn, ctx, bb, t)
            if t[4] is None:
                return []
            res = []
            for s2, v in outs:
                r, base = self.locate(s2, ctx, t[3])
                if r is not None:
                    self.write_loc(s2, r, v)
                res.append((t[4], s2))
            return res
        return []

    def _complement(self, st, v, fn, t):
        return True

    # --- calls
    def do_call(self, st, fn, ctx, bb, t):
        raw = [self.operand(st, ctx, fn, a) for a in t[2]]
        tyenv = self.stack[-1][2]
        argtys = t[7]
        items = t[8] if len(t) > 8 else [None] * len(raw)
        if t[1][0] == "k" and t[1][1][0] == "fn":
            callee = self.prog.callee(t[1][1][1])
        else:
            fv = self.operand(st, ctx, fn, t[1])
            if fv[0] == "c" and fv[1] == "fn":
                callee = self.prog.callee(self.fninfo(fv))
            else:
                callee = Callee({"id": "?", "path": "?dyn", "args": []})
        return self.call_value(st, fn, ctx, bb, callee, raw, argtys, t[5], t[6], None, items)

    def call_value(self, st, fn, ctx, bb, callee, raw, argtys, dty, span, tag, items=()):
        tyenv = self.stack[-1][2] if self.stack else {}
        tgt = self.prog.resolve(callee, tyenv)
        args = tuple(self.resolve(st, a) for a in raw)
        s = self.site(ctx, bb, tag, fn, span, callee, dty)
        if items:
            s.item = items[0] if items else None
        ev = Event(sid=s.sid, callee=callee, fn=fn, args=args, raw=raw, ctx=ctx, bb=bb, span=span, local=tgt,
                   argtys=argtys, dty=dty, tyenv=tyenv, stack=list(self.stack))
        self.nsites.add((fn.id, bb))
        self.mon.call(self, st, ev)
        if tgt is not None and tgt.blocks and self.inline(tgt):
            te = {}
            ca = [tyenv.get(a, a) for a in callee.args]
            for g, a in zip(tgt.generics, ca):
                te[g] = a
            if tgt.d.get("trait") and callee.trait:
                # an impl has generics of its own
                te = {g: tyenv.get(g, g) for g in tgt.generics}
                if ca:
                    te["Self"] = ca[0]
            if callee.args and tgt.d.get("intrait") and not te.get("Self"):
                te["Self"] = ca[0]
            c2 = self.ctx(ctx, bb, tgt.id, tag)
            s.args.add(args)
            return self.call_fn(st, tgt, raw, c2, te)
        r = self.model(st, ev, s, callee, raw, args, fn, ctx, bb, argtys, dty, span, items, tag)
        if r is not None:
            return r
        return self.opaque_call(st, ev, s, args, raw, argtys, dty)

    def inline(self, f):
        if f.derived or not f.blocks:
            return False
        if any(x[0] == f.id for x in self.stack):
            return False
        if len(self.stack) > self.MAXDEPTH:
            return False
        return not self.mon.opaque(self, f)

    def opaque_call(self, st, ev, s, args, raw, argtys, dty, run_closures=True):
        s.args.add(args)
        self.opaque_calls.add(s.callee.name if not isinstance(s.callee, str) else s.callee)
        outs = [st]
        if run_closures:
            for i, a in enumerate(args):
                rv = self.deref(st, raw[i]) if raw[i][0] == "ref" else raw[i]
                if rv[0] == "clo" or (rv[0] == "c" and rv[1] == "fn" and self._interesting_fn(rv)):
                    outs = self.run_closure_many(outs, ev, s, rv, i)
        res = []
        # p.push(x) gives p a new value made of the old one and x, like p.join(x)
        grown = s.name == "std::path::PathBuf::push"
        for st in outs:
            v = self.fresh(st, s)
            for i, a in enumerate(raw):
                m = i < len(argtys) and argtys[i]["k"] == "ref" and argtys[i]["m"]
                if m and a[0] == "ref":
                    old = self.load_ref(st, a)
                    if old[0] == "ref":
                        # &mut &mut T
                        while old[0] == "ref":
                            a = old
                            old = self.load_ref(st, a)
                    if grown and i == 0:
                        self.write_loc(st, a, v)
                    elif old[0] != "clo":
                        self.write_loc(st, a, self.mutate(st, old, s.sid))
            if grown:
                self.mon.result(self, st, ev, v)
                res.append((st, UNIT))
                continue
            if dty and dty["s"] == "()":
                v = UNIT
            if s.name in ("Index::index", "IndexMut::index_mut"):
                # the length of a slice, if it is known; a later run of the site makes another slice
                st.mon = frozenset(t for t in st.mon if t[0] != "len" or t[1][1] != s.sid)
                n = self.slicelen(st, args)
                if n is not None:
                    st.mon = st.mon | {("len", v, n)}
            rr = self.mon.result(self, st, ev, v)
            if rr is None:
                res.append((st, v))
            else:
                res.extend(rr)
        return res

    def _interesting_fn(self, v):
        info = self.fninfo(v)
        c = self.prog.callee(info)
        f = self.prog.resolve(c, None)
        if f is not None:
            return not f.derived
        return c.name in ("std::result::Result::ok", "std::result::Result::unwrap_or_default")

    def closure_arity(self, clo):
        if clo[0] == "clo":
            f = self.prog.fn(clo[1])
            return (f.argc - 1) if f else 0
        return 1

    def run_closure_many(self, states, ev, s, clo, argi):
        """An external function may call this closure any number of times."""
        out, seen, work = [], set(), list(states)
        n = 0
        while work:
            st = work.pop()
            k = st.sig()
            if k in seen:
                continue
            seen.add(k)
            out.append(st.copy())
            n += 1
            if n > 24:
                continue
            ps = []
            ar = self.closure_arity(clo)
            for j in range(ar):
                e = self.site(s.ctx, s.bb, (s.tag, "carg", argi, j), s.fn, s.span, "closure-arg")
                e.args.add(tuple(a for i, a in enumerate(ev.args) if i != argi))
                ps.append(self.fresh(st, e))
            for s2, v in self.call_closure(st, clo, ps, ev, (s.tag, "c", argi)):
                s.args.add((self.resolve(s2, v),))
                work.append(s2)
        return out

    def call_closure(self, st, clo, ps, ev, tag):
        """Calls a closure or function value with positional arguments."""
        clo0 = clo
        clo = self.deref(st, clo) if clo[0] == "ref" else clo
        if clo[0] == "clo":
            f = self.prog.fn(clo[1])
            if f is None or any(x[0] == f.id for x in self.stack) or len(self.stack) > self.MAXDEPTH:
                e = self.site(ev.ctx, ev.bb, (tag, "clo"), ev.fn, ev.span, "closure-call")
                e.args.add((clo,) + tuple(ps))
                return [(st, self.fresh(st, e))]
            te = dict(clo[3]) if clo[3] else dict(self.stack[-1][2])
            c2 = self.ctx(ev.ctx, ev.bb, f.id, tag)
            return self.call_fn(st, f, [clo0] + list(ps), c2, te)
        if clo[0] == "c" and clo[1] == "fn":
            info = self.fninfo(clo)
            callee = self.prog.callee(info)
            # constructors used as functions: Some, Ok, ...
            cn = callee.name
            for nm, f in (("Option::Some", some), ("Result::Ok", ok), ("Result::Err", err)):
                if cn.endswith(nm):
                    return [(st, f(ps[0]))]
            mc = re.match(r"^(.*?)(?:::(\w+))?::\{constructor#\d+\}$", callee.id or "")
            if mc:
                for adt, var in ((mc.group(1), mc.group(2)), ("%s::%s" % mc.groups(), None)):
                    a = self.prog.adts.get(adt)
                    vs = [i for i, x in enumerate(a["v"]) if (x[0] == var if a["enum"] else var is None) and len(x[1]) == len(ps)] if a else []
                    if len(vs) == 1:
                        return [(st, mk("agg", adt, vs[0], tuple(ps)))]
            at = [{"s": "?", "k": "o"} for _ in ps]
            return self.call_value(st, ev.fn, ev.ctx, ev.bb, callee, list(ps), at, {"s": "?", "k": "o"}, ev.span, (tag, "fnv"))
        e = self.site(ev.ctx, ev.bb, (tag, "dyn"), ev.fn, ev.span, Callee({"id": "?", "path": "?dyn", "args": []}))
        args = (self.resolve(st, clo),) + tuple(self.resolve(st, p) for p in ps)
        e.args.add(args)
        ev2 = Event(sid=e.sid, callee=e.callee, fn=ev.fn, args=args, raw=[clo] + list(ps), ctx=ev.ctx, bb=ev.bb,
                    span=ev.span, local=None, argtys=[], dty=None, tyenv={}, stack=list(self.stack))
        self.mon.call(self, st, ev2)
        v = self.fresh(st, e)
        rr = self.mon.result(self, st, ev2, v)
        return [(st, v)] if rr is None else rr

    # --- models of the standard library
    def model(self, st, ev, s, callee, raw, args, fn, ctx, bb, argtys, dty, span, items, tag):
        name, tm = callee.name, callee.tm
        D = lambda i: self.deref(st, raw[i])
        if tm:
            tr, m = tm
            if tr in ("Fn", "FnMut", "FnOnce") and m in ("call", "call_mut", "call_once"):
                f = raw[0]
                a = self.deref(st, raw[1])
                if a[0] == "agg":
                    ps = list(a[3])
                elif a is UNIT:
                    ps = []
                else:
                    ps = [mk("f", a, 0)]
                fd = self.deref(st, f)
                if fd[0] == "clo" or (fd[0] == "c" and fd[1] == "fn"):
                    return self.call_closure(st, f if f[0] == "ref" else fd, ps, ev, (tag, "call"))
                args2 = (self.resolve(st, fd),) + tuple(self.resolve(st, p) for p in ps)
                ev.args = args2
                ev.callee = Callee({"id": "?", "path": "?dyn", "args": []})
                s.callee = ev.callee
                self.mon.call(self, st, ev)
                return self.opaque_call(st, ev, s, args2, [fd] + ps, [], dty)
            if tm == ("Try", "branch"):
                return self.m_branch(st, raw[0], dty, s)
            if tm == ("FromResidual", "from_residual"):
                return self.m_residual(st, raw[0], dty, s, args)
            if tm == ("Try", "from_output"):
                return [(st, ok(raw[0]) if dty["s"].startswith("std::result::Result") else some(raw[0]))]
            if tm == ("PartialEq", "eq") or tm == ("PartialEq", "ne"):
                return [(st, self.veq(args[0], args[1], m == "ne"))]
            if tm == ("Not", "not"):
                return [(st, self.vnot(args[0]))]
            if tm == ("IntoIterator", "into_iter"):
                v = self.deref(st, raw[0]) if raw[0][0] == "ref" else raw[0]
                if v[0] == "it":
                    return [(st, v)]
                return [(st, mk("it", "src", (self.iterbase(st, raw[0], argtys),), items[0] if items else None))]
            if tr in ("Iterator", "DoubleEndedIterator", "Itertools") :
                r = self.m_iterator(st, ev, s, m, raw, args, argtys, dty, items, tag)
                if r is not None:
                    return r
            if tm == ("Extend", "extend"):
                it = self.deref(st, raw[1])
                return self.m_extend(st, ev, s, raw, it, argtys, items, tag)
            if tm == ("FromIterator", "from_iter"):
                return self.m_collect(st, ev, s, self.deref(st, raw[0]), dty, (items or [None])[0], tag)
            if tm in (("Deref", "deref"), ("DerefMut", "deref_mut"), ("AsRef", "as_ref"), ("AsMut", "as_mut"),
                      ("Borrow", "borrow"), ("BorrowMut", "borrow_mut")):
                r = raw[0]
                # & of a place holding a reference
                while r[0] == "ref":
                    x = self.load_ref(st, r)
                    if x[0] == "ref":
                        r = x
                    else:
                        break
                return [(st, r)]
            if tm == ("Clone", "clone") or tm == ("ToOwned", "to_owned"):
                return [(st, self.resolve(st, raw[0]))]
            if tm in (("Into", "into"), ("From", "from"), ("ToString", "to_string")):
                return [(st, self.m_convert(st, ev, s, raw[0], args))]
            if tm == ("Index", "index") or tm == ("IndexMut", "index_mut"):
                return self.m_index(st, ev, s, raw, args, argtys, dty)
            if tm == ("Default", "default"):
                if dty and dty["k"] == "array" and isinstance(dty.get("n"), int) and dty["n"] <= 16:
                    s.args.add(())
                    vs = []
                    for i in range(dty["n"]):
                        e = self.site(ctx, bb, (tag, "def", i), fn, span, callee, dty)
                        vs.append(self.fresh(st, e))
                    return [(st, mk("agg", "array", 0, tuple(vs)))]
                if dty and dty["s"].startswith("std::option::Option"):
                    return [(st, NONE)]
                return None
        if name in ("std::slice::len", "std::array::len", "std::vec::Vec::len", "std::slice::is_empty", "std::vec::Vec::is_empty") and len(raw) == 1:
            n = self.lenof(st, self.deref(st, raw[0]))
            if n is not None:
                return [(st, mk("c", "int", n, "usize") if name.endswith("len") else boolv(n == 0))]
        if name in ("std::boxed::box_assume_init_into_vec_unsafe", "std::boxed::Box::assume_init", "std::slice::into_vec"):
            return [(st, raw[0])]
        if name in IDENT:
            r = raw[0]
            if name.endswith("::as_ref") or name.endswith("::as_mut") or name.endswith("::as_deref") or name.endswith("::as_deref_mut"):
                v = self.deref(st, r)
                if r[0] == "ref" and v[0] == "agg" and v[1] in (OPTION, RESULT, EITHER) and v[3]:
                    rr = r
                    while True:
                        x = self.load_ref(st, rr)
                        if x[0] == "ref":
                            rr = x
                        else:
                            break
                    return [(st, mk("agg", v[1], v[2], tuple(
                        mk("ref", rr[1], rr[2], rr[3] + (("vf", v[2], i, ""),)) for i in range(len(v[3])))))]
                return [(st, v)]
            if name in ("std::slice::to_vec", "std::path::Path::to_path_buf", "std::borrow::Cow::into_owned",
                        "std::str::to_owned", "std::option::Option::copied", "std::option::Option::cloned",
                        "std::ffi::OsStr::to_os_string"):
                return [(st, self.resolve(st, raw[0]))]
            while r[0] == "ref":
                x = self.load_ref(st, r)
                if x[0] == "ref":
                    r = x
                else:
                    break
            return [(st, r)]
        if name in ITER_METHODS:
            b = mk("it", "src", (self.iterbase(st, raw[0], argtys),), items[0] if items else None)
            if name.endswith("::drain"):
                return None
            return [(st, b)]
        if name.startswith("std::option::Option::"):
            return self.m_option(st, ev, s, name[21:], raw, args, dty, tag)
        if name.startswith("std::result::Result::"):
            return self.m_result(st, ev, s, name[21:], raw, args, dty, tag)
        if name.startswith("std::bool::"):
            m = name[11:]
            if m in ("then", "then_some"):
                out = []
                for n in (0, 1):
                    s2 = st.copy()
                    if self.assume(s2, args[0], n):
                        if n == 0:
                            out.append((s2, NONE))
                        elif m == "then_some":
                            out.append((s2, some(raw[1])))
                        else:
                            out.extend((s3, some(v)) for s3, v in self.call_closure(s2, raw[1], [], ev, (tag, "then")))
                return out
        if name == "either::Either::either":
            out = []
            for s2, var, p in self.variants(st, raw[0], EITHER):
                out.extend(self.call_closure(s2, raw[1 + var], [p[0]], ev, (tag, "e", var)))
            return out
        if name in ("either::Either::left", "either::Either::right"):
            w = 0 if name.endswith("left") else 1
            return [(s2, some(p[0]) if var == w else NONE) for s2, var, p in self.variants(st, raw[0], EITHER)]
        if name in ("either::Either::is_left", "either::Either::is_right"):
            w = 0 if name.endswith("left") else 1
            return [(s2, boolv(var == w)) for s2, var, p in self.variants(st, raw[0], EITHER)]
        if name in ("std::mem::take", "std::mem::replace", "std::option::Option::take"):
            if raw[0][0] == "ref":
                old = self.load_ref(st, raw[0])
                if name == "std::mem::replace":
                    new = raw[1]
                else:
                    new = self.fresh(st, self.site(ctx, bb, (tag, "taken"), fn, span, "default"))
                self.write_loc(st, raw[0], new)
                return [(st, old)]
            return None
        if name == "std::mem::swap":
            if raw[0][0] == "ref" and raw[1][0] == "ref":
                a, b = self.load_ref(st, raw[0]), self.load_ref(st, raw[1])
                self.write_loc(st, raw[0], b)
                self.write_loc(st, raw[1], a)
                return [(st, UNIT)]
            return None
        return None

    def m_convert(self, st, ev, s, r, args):
        return self.resolve(st, r) if r[0] == "ref" else r

    def iterbase(self, st, r, argtys):
        v = self.deref(st, r) if r[0] == "ref" else r
        return self.resolve(st, v)

    def m_branch(self, st, v, dty, s):
        v = self.deref(st, v)
        isopt = dty["s"].replace("std::ops::ControlFlow<", "").startswith("std::option::Option")
        out = []
        adt = OPTION if isopt else RESULT
        for s2, var, p in self.variants(st, v, adt):
            if adt == RESULT:
                if var == 0:
                    out.append((s2, agg(CFLOW, 0, p[0])))
                else:
                    out.append((s2, agg(CFLOW, 1, err(p[0]))))
            else:
                if var == 1:
                    out.append((s2, agg(CFLOW, 0, p[0])))
                else:
                    out.append((s2, agg(CFLOW, 1, NONE)))
        return out

    def m_residual(self, st, v, dty, s, args):
        v = self.deref(st, v)
        if dty["s"].startswith("std::option::Option"):
            return [(st, NONE)]
        e = v[3][0] if v[0] == "agg" and v[3] else mk("v", v, 1, 0)
        # the conversion of the error, through From
        return [(st, err(mk("conv", self.resolve(st, e))))]

    def m_option(self, st, ev, s, m, raw, args, dty, tag):
        if m in ("is_some", "is_none"):
            return [(s2, boolv((var == 1) == (m == "is_some"))) for s2, var, p in self.variants(st, raw[0], OPTION)]
        simple = {"unwrap", "expect", "unwrap_unchecked", "map", "and_then", "or_else", "or", "ok_or", "ok_or_else",
                  "unwrap_or", "unwrap_or_else", "unwrap_or_default", "filter", "map_or", "map_or_else", "and",
                  "is_some_and", "is_none_or", "transpose", "flatten", "zip", "inspect"}
        if m not in simple:
            return None
        out = []
        C = lambda st, i, ps: self.call_closure(st, raw[i], ps, ev, (tag, "oc", i))
        for s2, var, p in self.variants(st, raw[0], OPTION):
            x = p[0] if var == 1 else None
            if m in ("unwrap", "expect", "unwrap_unchecked"):
                if var:
                    out.append((s2, x))
            elif m == "map":
                out.extend([(s3, some(v)) for s3, v in C(s2, 1, [x])] if var else [(s2, NONE)])
            elif m == "inspect":
                out.extend([(s3, some(x)) for s3, v in C(s2, 1, [x])] if var else [(s2, NONE)])
            elif m == "and_then":
                out.extend(C(s2, 1, [x]) if var else [(s2, NONE)])
            elif m == "and":
                out.append((s2, raw[1] if var else NONE))
            elif m == "or":
                out.append((s2, some(x) if var else raw[1]))
            elif m == "or_else":
                out.extend([(s2, some(x))] if var else C(s2, 1, []))
            elif m == "ok_or":
                out.append((s2, ok(x) if var else err(raw[1])))
            elif m == "ok_or_else":
                out.extend([(s2, ok(x))] if var else [(s3, err(v)) for s3, v in C(s2, 1, [])])
            elif m == "unwrap_or":
                out.append((s2, x if var else raw[1]))
            elif m == "unwrap_or_else":
                out.extend([(s2, x)] if var else C(s2, 1, []))
            elif m == "unwrap_or_default":
                if var:
                    out.append((s2, x))
                else:
                    e = self.site(ev.ctx, ev.bb, (tag, "dflt"), ev.fn, ev.span, "default")
                    out.append((s2, self.fresh(s2, e)))
            elif m == "filter":
                if not var:
                    out.append((s2, NONE))
                else:
                    for s3, v in C(s2, 1, [x]):
                        for n in (0, 1):
                            s4 = s3.copy()
                            if self.assume(s4, v, n):
                                out.append((s4, some(x) if n else NONE))
            elif m == "map_or":
                out.extend(C(s2, 2, [x]) if var else [(s2, raw[1])])
            elif m == "map_or_else":
                out.extend(C(s2, 2, [x]) if var else C(s2, 1, []))
            elif m == "is_some_and":
                out.extend(C(s2, 1, [x]) if var else [(s2, FALSE)])
            elif m == "is_none_or":
                out.extend(C(s2, 1, [x]) if var else [(s2, TRUE)])
            elif m == "transpose":
                if not var:
                    out.append((s2, ok(NONE)))
                else:
                    for s3, v2, p2 in self.variants(s2, x, RESULT):
                        out.append((s3, ok(some(p2[0])) if v2 == 0 else err(p2[0])))
            elif m == "flatten":
                out.append((s2, x if var else NONE))
            elif m == "zip":
                if not var:
                    out.append((s2, NONE))
                else:
                    for s3, v2, p2 in self.variants(s2, raw[1], OPTION):
                        out.append((s3, some(tup(x, p2[0])) if v2 else NONE))
        return out

    def m_result(self, st, ev, s, m, raw, args, dty, tag):
        if m in ("is_ok", "is_err"):
            return [(s2, boolv((var == 0) == (m == "is_ok"))) for s2, var, p in self.variants(st, raw[0], RESULT)]
        simple = {"unwrap", "expect", "map", "map_err", "and_then", "or_else", "or", "ok", "err", "unwrap_or",
                  "unwrap_or_else", "unwrap_or_default", "map_or", "map_or_else", "and", "transpose", "is_ok_and",
                  "is_err_and", "inspect", "inspect_err", "expect_err", "unwrap_err", "iter", "flatten"}
        if m not in simple or m == "iter":
            return None
        out = []
        C = lambda st, i, ps: self.call_closure(st, raw[i], ps, ev, (tag, "rc", i))
        for s2, var, p in self.variants(st, raw[0], RESULT):
            x = p[0]
            isok = var == 0
            if m in ("unwrap", "expect"):
                if isok:
                    out.append((s2, x))
            elif m in ("unwrap_err", "expect_err"):
                if not isok:
                    out.append((s2, x))
            elif m == "map":
                out.extend([(s3, ok(v)) for s3, v in C(s2, 1, [x])] if isok else [(s2, err(x))])
            elif m == "map_err":
                out.extend([(s2, ok(x))] if isok else [(s3, err(v)) for s3, v in C(s2, 1, [x])])
            elif m == "inspect":
                out.extend([(s3, ok(x)) for s3, v in C(s2, 1, [x])] if isok else [(s2, err(x))])
            elif m == "inspect_err":
                out.extend([(s2, ok(x))] if isok else [(s3, err(x)) for s3, v in C(s2, 1, [x])])
            elif m == "and_then":
                out.extend(C(s2, 1, [x]) if isok else [(s2, err(x))])
            elif m == "and":
                out.append((s2, raw[1] if isok else err(x)))
            elif m == "or":
                out.append((s2, ok(x) if isok else raw[1]))
            elif m == "or_else":
                out.extend([(s2, ok(x))] if isok else C(s2, 1, [x]))
            elif m == "ok":
                out.append((s2, some(x) if isok else NONE))
            elif m == "err":
                out.append((s2, NONE if isok else some(x)))
            elif m == "unwrap_or":
                out.append((s2, x if isok else raw[1]))
            elif m == "unwrap_or_else":
                out.extend([(s2, x)] if isok else C(s2, 1, [x]))
            elif m == "unwrap_or_default":
                if isok:
                    out.append((s2, x))
                else:
                    e = self.site(ev.ctx, ev.bb, (tag, "dflt"), ev.fn, ev.span, "default")
                    out.append((s2, self.fresh(s2, e)))
            elif m == "map_or":
                out.extend(C(s2, 2, [x]) if isok else [(s2, raw[1])])
            elif m == "map_or_else":
                out.extend(C(s2, 2, [x]) if isok else C(s2, 1, [x]))
            elif m == "is_ok_and":
                out.extend(C(s2, 1, [x]) if isok else [(s2, FALSE)])
            elif m == "is_err_and":
                out.extend([(s2, FALSE)] if isok else C(s2, 1, [x]))
            elif m == "flatten":
                out.append((s2, x if isok else err(x)))
            elif m == "transpose":
                if not isok:
                    out.append((s2, some(err(x))))
                else:
                    for s3, v2, p2 in self.variants(s2, x, OPTION):
                        out.append((s3, some(ok(p2[0])) if v2 else NONE))
        return out

    def m_index(self, st, ev, s, raw, args, argtys, dty):
        # an element (or sub-slice) of a container: identity plus provenance
        s.args.add(args)
        return None

    # --- iterators
    def as_iter(self, st, v, item=None):
        v = self.deref(st, v) if v[0] == "ref" else v
        if v[0] == "it":
            return v
        return mk("it", "src", (self.resolve(st, v),), item)

    def m_iterator(self, st, ev, s, m, raw, args, argtys, dty, items, tag):
        item = items[0] if items else None
        if m == "next" or m == "next_back":
            it = self.deref(st, raw[0])
            if it[0] != "it":
                it = mk("it", "src", (self.resolve(st, it),), item)
            out = []
            s.args.add((self.resolve(st, it),))
            for s2, x in self.next(st, it, ev, s, (tag, "n"), item):
                out.append((s2, NONE if x is None else some(x)))
            return out
        if m in LAZY:
            it = self.as_iter(st, raw[0], item)
            extra = []
            for i, a in enumerate(raw[1:]):
                if m in ("zip", "chain"):
                    extra.append(self.as_iter(st, a, items[1 + i] if len(items) > 1 + i else None))
                else:
                    extra.append(a)
            s.args.add(args)
            if m == "chain":
                st.mon = st.mon - {("~chain", mk("c", "site", s.sid))}
            return [(st, mk("it", m, (it,) + tuple(extra) + (mk("c", "site", s.sid),), item))]
        if m in CONSUME:
            it = self.as_iter(st, raw[0], item)
            return self.m_consume(st, ev, s, m, it, raw, args, dty, item, tag)
        return None

    def next(self, st, it, ev, s, tag, item=None, depth=0):
        """[(state, element or None)] for one step of an iterator."""
        kind = it[1]
        xs = it[2]
        if kind == "src":
            base = xs[0]
            e = self.site(ev.ctx, ev.bb, (tag, "src"), ev.fn, ev.span, "next")
            e.args.add((self.resolve(st, base),))
            e.item = it[3] or item
            out = []
            b = self.resolve(st, base)
            if b[0] in ("r", "o") and re.search(r"iter::(sources::(once::)?)?once$", self.sites[b[1]].name) and len(self.sites[b[1]].args) == 1:
                t = ("~once", mk("c", "site", b[1]))
                if t in st.mon:
                    self.mon.end(self, st, ev, it)
                    st.mon = st.mon - {t}
                    return [(st, None)]
                st.mon = st.mon | {t}
                return [(st, next(iter(self.sites[b[1]].args))[0])]
            s1 = st.copy()
            self.mon.end(self, s1, ev, it)
            out.append((s1, None))
            if b[0] == "r" and FRESH.match(self.sites[b[1]].name):
                return out          # nothing was put into it
            v = self.fresh(st, e)
            rr = self.mon.item(self, st, ev, it, v)
            for s2, x in ([(st, v)] if rr is None else rr):
                out.append((s2, x))
            return out
        inner = xs[0]
        if kind in ("rev", "take", "skip", "step_by", "peekable", "fuse", "by_ref", "cloned", "copied"):
            out = []
            for s2, x in self.next(st, inner, ev, s, (tag, kind)):
                if x is not None and kind in ("cloned", "copied"):
                    x = self.deref(s2, x) if x[0] == "ref" else x
                out.append((s2, x))
            return out
        if kind == "enumerate":
            out = []
            for s2, x in self.next(st, inner, ev, s, (tag, kind)):
                if x is None:
                    out.append((s2, None))
                else:
                    e = self.site(ev.ctx, ev.bb, (tag, "enum"), ev.fn, ev.span, "index")
                    self.enums.setdefault(e.sid, set()).add(x)
                    out.append((s2, tup(self.fresh(s2, e), x)))
            return out
        if kind == "map" or kind == "inspect":
            out = []
            for s2, x in self.next(st, inner, ev, s, (tag, kind)):
                if x is None:
                    out.append((s2, None))
                else:
                    for s3, v in self.call_closure(s2, xs[1], [x], ev, (tag, "mapc")):
                        out.append((s3, v if kind == "map" else x))
            return out
        if kind in ("filter", "filter_map", "take_while", "map_while", "skip_while"):
            out, seen, work, n = [], set(), [st], 0
            while work and n < 16:
                n += 1
                s1 = work.pop()
                k = s1.sig()
                if k in seen:
                    continue
                seen.add(k)
                for s2, x in self.next(s1, inner, ev, s, (tag, kind)):
                    if x is None:
                        out.append((s2, None))
                        continue
                    for s3, v in self.call_closure(s2, xs[1], [x], ev, (tag, "filc")):
                        if kind in ("filter_map", "map_while"):
                            for s4, var, p in self.variants(s3, v, OPTION):
                                if var:
                                    out.append((s4, p[0]))
                                elif kind == "map_while":
                                    out.append((s4, None))
                                else:
                                    work.append(s4)
                        else:
                            for b in (0, 1):
                                s4 = s3.copy()
                                if self.assume(s4, v, b):
                                    if kind == "skip_while":
                                        if b:
                                            work.append(s4)
                                        else:
                                            out.append((s4, x))
                                    elif b:
                                        out.append((s4, x))
                                    elif kind == "take_while":
                                        out.append((s4, None))
                                    else:
                                        work.append(s4)
            return out
        if kind == "zip":
            out = []
            for s2, x in self.next(st, inner, ev, s, (tag, "z0")):
                if x is None:
                    out.append((s2, None))
                    continue
                for s3, y in self.next(s2, xs[1], ev, s, (tag, "z1")):
                    out.append((s3, None if y is None else tup(x, y)))
            return out
        if kind == "chain":
            out = []
            # the second part follows once the first has ended
            t = ("~chain", xs[-1])
            if t in st.mon:
                return self.next(st, xs[1], ev, s, (tag, "c1"))
            for s2, x in self.next(st, inner, ev, s, (tag, "c0")):
                if x is None:
                    s2.mon = s2.mon | {t}
                    out.extend(self.next(s2, xs[1], ev, s, (tag, "c1")))
                else:
                    out.append((s2, x))
            return out
        if kind in ("flatten", "flat_map"):
            out, seen, work, n = [], set(), [st], 0
            while work and n < 16:
                n += 1
                s1 = work.pop()
                k = s1.sig()
                if k in seen:
                    continue
                seen.add(k)
                for s2, x in self.next(s1, inner, ev, s, (tag, kind)):
                    if x is None:
                        out.append((s2, None))
                        continue
                    ys = [(s2, x)]
                    if kind == "flat_map":
                        ys = self.call_closure(s2, xs[1], [x], ev, (tag, "fmc"))
                    for s3, y in ys:
                        y = self.deref(s3, y) if y[0] == "ref" else y
                        it_ty = inner[3] or ""
                        adt = None
                        if y[0] == "agg" and y[1] in (OPTION, RESULT):
                            adt = y[1]
                        elif kind == "flatten" and it_ty.startswith("std::result::Result"):
                            adt = RESULT
                        elif kind == "flatten" and it_ty.startswith("std::option::Option"):
                            adt = OPTION
                        if adt:
                            for s4, var, p in self.variants(s3, y, adt):
                                good = (var == 0) if adt == RESULT else (var == 1)
                                if good:
                                    out.append((s4, p[0]))
                                else:
                                    work.append(s4)
                        else:
                            for s4, z in self.next(s3, self.as_iter(s3, y), ev, s, (tag, "inner")):
                                if z is None:
                                    work.append(s4)
                                else:
                                    out.append((s4, z))
            return out
        # anything else: elements derive from the inner iterator and the closures
        out = []
        for s2, x in self.next(st, inner, ev, s, (tag, kind)):
            if x is None:
                out.append((s2, None))
                continue
            e = self.site(ev.ctx, ev.bb, (tag, "x", kind), ev.fn, ev.span, "iter:" + kind)
            e.args.add((x,) + tuple(self.resolve(s2, y) for y in xs[1:]))
            out.append((s2, self.fresh(s2, e)))
        return out

    def each(self, st, it, ev, s, tag, body):
        """Runs a consumer loop.  body(state, x) -> [(state, None | ('stop', value))].
        Returns (states at exhaustion, [(state, value)] stopped)."""
        done, stopped, seen, work, n = [], [], set(), [st], 0
        dseen = set()
        while work:
            s1 = work.pop()
            k = s1.sig()
            if k in seen:
                continue
            seen.add(k)
            n += 1
            if n > 60:
                break
            for s2, x in self.next(s1, it, ev, s, tag):
                if x is None:
                    k2 = s2.sig()
                    if k2 not in dseen:
                        dseen.add(k2)
                        done.append(s2)
                    continue
                for s3, r in body(s2, x):
                    if r is None:
                        work.append(s3)
                    else:
                        stopped.append((s3, r[1]))
        return done, stopped

    def m_consume(self, st, ev, s, m, it, raw, args, dty, item, tag):
        s.args.add(args)
        if m == "collect":
            return self.m_collect(st, ev, s, it, dty, item, tag)
        C = lambda st, i, ps: self.call_closure(st, raw[i], ps, ev, (tag, "cc", i))
        if m == "for_each":
            done, _ = self.each(st, it, ev, s, (tag, "k"), lambda s1, x: [(s2, None) for s2, v in C(s1, 1, [x])])
            return [(s2, UNIT) for s2 in done]
        if m == "try_for_each":
            def body(s1, x):
                out = []
                for s2, v in C(s1, 1, [x]):
                    adt = OPTION if dty["s"].startswith("std::option::Option") else RESULT
                    for s3, var, p in self.variants(s2, v, adt):
                        good = (var == 0) if adt == RESULT else (var == 1)
                        out.append((s3, None if good else ("stop", mk("agg", adt, var, tuple(p)))))
                return out
            done, stop = self.each(st, it, ev, s, (tag, "k"), body)
            good = some(UNIT) if dty["s"].startswith("std::option::Option") else ok(UNIT)
            return [(s2, good) for s2 in done] + stop
        if m in ("any", "all", "find", "position"):
            def body(s1, x):
                out = []
                for s2, v in C(s1, 1, [x]):
                    for b in (0, 1):
                        s3 = s2.copy()
                        if self.assume(s3, v, b):
                            if m == "any" and b:
                                out.append((s3, ("stop", TRUE)))
                            elif m == "all" and not b:
                                out.append((s3, ("stop", FALSE)))
                            elif m == "find" and b:
                                out.append((s3, ("stop", some(x))))
                            elif m == "position" and b:
                                e = self.site(ev.ctx, ev.bb, (tag, "pos"), ev.fn, ev.span, "position")
                                e.args.add(args)
                                out.append((s3, ("stop", some(self.fresh(s3, e)))))
                            else:
                                out.append((s3, None))
                return out
            done, stop = self.each(st, it, ev, s, (tag, "k"), body)
            z = {"any": FALSE, "all": TRUE, "find": NONE, "position": NONE}[m]
            # keep the outcome symbolic for the caller's branch
            return [(s2, z) for s2 in done] + stop
        if m == "find_map":
            def body(s1, x):
                out = []
                for s2, v in C(s1, 1, [x]):
                    for s3, var, p in self.variants(s2, v, OPTION):
                        out.append((s3, ("stop", some(p[0])) if var else None))
                return out
            done, stop = self.each(st, it, ev, s, (tag, "k"), body)
            return [(s2, NONE) for s2 in done] + stop
        # everything else: result derives from the elements
        clo = [i for i in range(1, len(raw)) if (self.deref(st, raw[i]))[0] == "clo" or (self.deref(st, raw[i])[0] == "c" and self.deref(st, raw[i])[1] == "fn")]

        isres = bool(dty) and dty["s"].startswith("std::result::Result")

        def body(s1, x):
            s.args.add((self.resolve(s1, x),))
            if m in ("unzip", "partition"):
                self.mon.kept(self, s1, s, x)
            if not clo:
                if isres and m in ("sum", "product"):
                    out = []
                    for s2, var, p in self.variants(s1, x, RESULT):
                        out.append((s2, None if var == 0 else ("stop", err(p[0]))))
                    return out
                return [(s1, None)]
            i = clo[-1]
            n = self.closure_arity(self.deref(s1, raw[i]))
            if m in ("fold", "try_fold"):
                e = self.site(ev.ctx, ev.bb, (tag, "acc"), ev.fn, ev.span, "acc")
                e.args.add((self.resolve(s1, raw[1]),))
                ps = [self.fresh(s1, e), x]
            else:
                ps = [x] * n
            out = []
            for s2, v in C(s1, i, ps):
                s.args.add((self.resolve(s2, v),))
                if m == "try_fold" and isres:
                    for s3, var, p in self.variants(s2, v, RESULT):
                        out.append((s3, None if var == 0 else ("stop", err(p[0]))))
                else:
                    out.append((s2, None))
            return out
        done, stop = self.each(st, it, ev, s, (tag, "k"), body)
        res = list(stop)
        for s2 in done:
            v = self.fresh(s2, s)
            if m == "try_fold" and isres:
                v = ok(v)
            rr = self.mon.result(self, s2, ev, v)
            res.extend([(s2, v)] if rr is None else rr)
        return res

    def m_collect(self, st, ev, s, it, dty, item, tag):
        it = self.as_iter(st, it, item)
        wrap = None
        if dty["s"].startswith("std::result::Result"):
            wrap = RESULT
        elif dty["s"].startswith("std::option::Option"):
            wrap = OPTION

        def body(s1, x):
            if wrap is None:
                s.args.add((self.resolve(s1, x),))
                self.mon.kept(self, s1, s, x)
                return [(s1, None)]
            out = []
            for s2, var, p in self.variants(s1, x, wrap):
                good = (var == 0) if wrap == RESULT else (var == 1)
                if good:
                    s.args.add((self.resolve(s2, p[0]),))
                    self.mon.kept(self, s2, s, p[0])
                    out.append((s2, None))
                else:
                    out.append((s2, ("stop", mk("agg", wrap, var, tuple(p)))))
            return out
        done, stop = self.each(st, it, ev, s, (tag, "k"), body)
        res = list(stop)
        for s2 in done:
            v = self.fresh(s2, s)
            if wrap == RESULT:
                v = ok(v)
            elif wrap == OPTION:
                v = some(v)
            res.append((s2, v))
        return res

    def m_extend(self, st, ev, s, raw, it, argtys, items, tag):
        it = self.as_iter(st, raw[1], items[1] if len(items) > 1 else None)
        s.args.add(tuple(self.resolve(st, a) for a in raw))

        def body(s1, x):
            s.args.add((self.resolve(s1, x),))
            self.mon.kept(self, s1, s, x)
            return [(s1, None)]
        done, _ = self.each(st, it, ev, s, (tag, "k"), body)
        out = []
        for s2 in done:
            a = raw[0]
            while a[0] == "ref":
                x = self.load_ref(s2, a)
                if x[0] == "ref":
                    a = x
                else:
                    break
            if a[0] == "ref":
                self.write_loc(s2, a, self.mutate(s2, self.load_ref(s2, a), s.sid))
            out.append((s2, UNIT))
        return out

    # --- provenance
    def origins(self, v, through=None, stop=None):
        """All terms v derives from (data provenance), as a set of nodes."""
        seen, work = set(), set()
        _terms(v, work)
        while work:
            x = work.pop()
            seen.add(x)
            if stop and stop(x):
                continue
            k = x[0]
            if k in ("r", "o"):
                work |= self.given(x[1]) - seen
            elif k == "mut":
                if x[1] not in seen:
                    work.add(x[1])
                for sid in self.muts[x]:
                    work |= self.given(sid) - seen
            else:
                ks = _kids.get(x)
                if ks is None:
                    s = set()
                    for y in x[1:]:
                        _terms(y, s)
                    ks = _kids[x] = frozenset(s)
                work |= ks - seen
        return seen

    def given(self, sid):
        """Everything the calls at a site were given."""
        args = self.sites[sid].args
        n, s = self._given.get(sid, (0, None))
        if s is None or n != len(args):
            s = set()
            for a in args:
                _terms(a, s)
            self._given[sid] = (len(args), s)
        return s

    def origin_calls(self, v, **k):
        """Names of the calls v derives from."""
        out = set()
        for x in self.origins(v, **k):
            if x[0] in ("r", "o"):
                out.add(self.sites[x[1]].name)
            elif x[0] == "mut":
                for sid in self.muts[x]:
                    out.add(self.sites[sid].name)
        return out

    def show(self, v, d=0):
        """A readable form of a term, for reports."""
        if type(v) is not T:
            return str(v)
        k = v[0]
        if d > 6:
            return "…"
        S = lambda x: self.show(x, d + 1)
        if k == "c":
            if v[1] == "int":
                return str(v[2]) if v[3] != "bool" else str(bool(v[2])).lower()
            if v[1] == "bytes":
                try:
                    return repr(bytes.fromhex(v[2]).decode())
                except Exception:
                    return "0x" + v[2][:16]
            if v[1] == "fn":
                return "fn " + v[2][0]
            return str(v[1])
        if k in ("r", "o"):
            s = self.sites[v[1]]
            a = sorted(s.args, key=repr)[:1]
            return "%s(%s)" % (s.name.split("::")[-1], ", ".join(S(x) for x in (a[0] if a else ())))
        if k == "p":
            f = self.prog.fn(v[1])
            n = f.locals[v[2] + 1][1] if f else None
            return n or "arg%d" % v[2]
        if k == "f":
            return "%s.%s" % (S(v[1]), v[2])
        if k == "v":
            return S(v[1])
        if k == "agg":
            a = self.prog.adts.get(v[1])
            nm = v[1].split("::")[-1]
            if a and a["enum"]:
                nm = a["v"][v[2]][0]
            return "%s(%s)" % (nm, ", ".join(S(x) for x in v[3]))
        if k == "mut":
            return S(v[1])
        if k == "bin":
            return "%s %s %s" % (S(v[2]), v[1], S(v[3]))
        if k == "un":
            return "%s %s" % (v[1], S(v[2]))
        if k == "discr":
            return "variant of " + S(v[1])
        if k == "it":
            return "iter:%s(%s)" % (v[1], ", ".join(S(x) for x in v[2]))
        if k == "clo":
            return "closure"
        if k == "conv":
            return S(v[1])
        if k == "ov":
            return S(v[1]) + "{…}"
        if k == "or":
            return "(" + " | ".join(sorted(S(x) for x in v[1])) + ")"
        return k
