"""C40: what may decide where data is cut."""
import re

from ..core import *
from .buffers import base, rng, isint, loctype
from .prov import roots, UNORDERED
from .listing import SORT

# reads that may return less than was asked for, and whatever the reader finds convenient
SHORT = {("Read", "read"), ("Read", "read_vectored"), ("Read", "read_buf"), ("BufRead", "fill_buf")}
HASHED = re.compile(r"\b(HashMap|HashSet)<")
CHANGING = [
    (re.compile(r"^std::time::(Instant|SystemTime)::(now|elapsed)$|^chrono::|^time::"), "the time"),
    (re.compile(r"^std::env::"), "the environment"),
    (re.compile(r"^std::process::(id|Command)"), "the process"),
    (re.compile(r"^std::thread::|^num_cpus::"), "the thread or the machine"),
    (re.compile(r"LocalKey::\w*(with|get|take|replace|set)\w*$"), "what the thread did before"),
    (re.compile(r"(^|::)Atomic(\w+)?::(load|swap|fetch_\w+|compare_\w+|get_mut|into_inner)$"), "what was done before"),
    (re.compile(r"^std::sync::((poison|mutex|rwlock|once_lock|lazy_lock|once)::)?(Mutex|RwLock|OnceLock)::(lock|try_lock|read|write|get|get_or_init)$"),
     "what was done before"),
    (re.compile(r"RandomState|^BuildHasher::"), "a random number"),
    (re.compile(r"^(rand|getrandom|fastrand|uuid)::"), "a random number"),
    (re.compile(r"^std::(vec::Vec|string::String|collections::\w+|collections::\w+::\w+)::(capacity|spare_capacity_mut)$"), "how much memory was reserved"),
    (re.compile(r"^std::(vec::Vec|slice|str|string::String|rc::Rc|sync::Arc)::(as_ptr|as_mut_ptr)$"), "where memory was reserved"),
    (re.compile(r"^std::fs::|^std::path::(Path|PathBuf)::(exists|is_file|is_dir|metadata|symlink_metadata)$"), "the file system"),
]


def C40(an, ck):
    root = an.fn("snapcd::file::put_data")
    put_obj = an.ds("put_obj").id
    new = {an.assoc("Object", "new").id, an.assoc("Object", "new_owned").id}
    n = Seen()
    slices = {}
    looks = {}          # site -> what its result depends on

    def src(eng, st, raw, val):
        if val[0] == "r" and val[1] in slices:
            return slices[val[1]]
        return (base(eng, st, raw) if raw[0] == "ref" else None), None

    def where(eng, ev):
        return ev.span, eng.chain(ev.ctx)

    def source(eng, ev):
        for rx, what in CHANGING:
            if rx.search(ev.name):
                return what
        if ev.tm is not None and ev.tm[0] == "DataStore" and re.match(r"raw_(exists|get|between)|get|exists|reflog_(get|walk)|canonicalize", ev.tm[1] or ""):
            return "what is already stored"
        return None

    def changing(eng, v):
        """What v depends on besides the data, or None."""
        for x in eng.origins(v):
            if x[0] in ("r", "o") and x[1] in looks:
                return looks[x[1]]
            if x[0] == "c" and x[1] == "static" and mutable(x[2]):
                return "what was done before"
        return None

    def mutable(i):
        f = an.p.fn(i)
        return bool(f is not None and f.d.get("mut"))

    def decided(eng, ev, v, what):
        on = changing(eng, v)
        if on is not None:
            ck.bad("%s depends on %s" % (what, on), "%s depends on %s and not only on the data stored: the same data may get another key" % (what, on),
                   *where(eng, ev))

    # --- short reads
    def partial(eng, st, ev, v):
        o = eng.origins(v)
        for t in list(st.mon):
            if t[0] == "part" and any(x is t[1] or x[0] == "mut" and x[2] == t[1][1] for x in o):
                ck.bad("short read used", "what one read happened to return is looked at without filling the block first: where the data is cut depends on "
                       "the sizes of the reads", *where(eng, ev))
                return

    def on_call(eng, st, ev):
        nm = ev.name
        if nm in ("Index::index", "IndexMut::index_mut", "std::slice::get", "std::slice::get_mut", "std::vec::Vec::get", "std::vec::Vec::get_mut"):
            r = rng(ev.args[1], eng)
            loc = base(eng, st, ev.raw[0])
            if loc is not None and r is not None:
                slices[ev.sid] = (loc, r)
            else:
                slices.pop(ev.sid, None)
            return
        w = source(eng, ev)
        if w is not None:
            looks[ev.sid] = w
        if ev.tm in SHORT:
            n.hit("reads that may be short", ev)
            if ev.tm[1] != "fill_buf" and len(ev.raw) > 1:
                loc, r = src(eng, st, ev.raw[1], ev.args[1])
                drop(st, lambda t: t[0] == "into")
                add(st, "into", loc, r[0] if r else None, r[1] if r else None)
            return
        if ev.tm is not None and ev.tm[0] == "Read":
            n.hit("reads that end only with the block or the input", ev)
            return
        if ev.local is not None:
            if ev.local.id in new:
                n.hit("objects built", ev)
                for a in ev.args:
                    decided(eng, ev, a, "what is stored")
                    partial(eng, st, ev, a)
                hashed(eng, ev, ev.args[1])
                hashed(eng, ev, ev.args[0])
            elif ev.local.id == put_obj:
                n.hit("objects stored", ev)
            return
        if ev.tm is None and not re.match(r"^(std|core|alloc|log|Index|IndexMut|Deref|Extend|Iterator|IntoIterator|Into|From|Clone)::", nm):
            n.hit("searches for a boundary", ev)
            for a in ev.args:
                decided(eng, ev, a, "where data is cut")
                partial(eng, st, ev, a)

    def hashed(eng, ev, v):
        o = eng.origins(v)
        if any(x[0] == "it" and x[1] and HASHED.search(repr(x[3] if len(x) > 3 else "")) for x in o) or any(
                x[0] in ("r", "o") and HASHED.search((eng.sites[x[1]].dty or {}).get("s", "")) for x in o):
            if not any(x[0] == "mut" and SORT.match(eng.sites[x[2]].name) for x in o):
                ck.bad("order of a hash table", "the order of what is stored is that of a hash table, which differs from run to run", *where(eng, ev))

    def on_result(eng, st, ev, v):
        if ev.tm in SHORT:
            into = [t for t in st.mon if t[0] == "into"]
            drop(st, lambda t: t[0] == "into")
            out = []
            for s2, x, good in fork(eng, st, v):
                if good:
                    drop(s2, lambda t: t[0] == "part" and t[1][1] == ev.sid)
                    loc, lo, hi = into[0][1:] if into else (None, None, None)
                    s2.mon = s2.mon | {("part", v, loc, lo, hi)}
                out.append((s2, x))
            return out
        return None

    def parts(eng, v):
        """What v is computed from by arithmetic: (leaves, only additions?)"""
        leaves, pure, todo, seen = set(), True, [v], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x[0] == "f" and x[2] in (0, "0") and x[1][0] in ("r", "o") and eng.sites[x[1][1]].name.startswith("bin:"):
                x = x[1]
            if x[0] in ("r", "o") and eng.sites[x[1]].name.startswith("bin:"):
                pure = pure and eng.sites[x[1]].name.startswith("bin:Add")
                todo += [z for y in eng.sites[x[1]].args for z in y]
            elif x[0] == "or":
                todo += list(x[1])
            elif x[0] == "conv":
                todo.append(x[1])
            elif x[0] in ("bin", "un"):
                pure = False
                todo += [z for z in x[2:] if type(z) is T]
            else:
                leaves.add(x)
        return leaves, pure

    def isn(x):
        return x[0] == "v" and x[2:] == (0, 0) and x[1][0] in ("r", "o")

    def ends(eng, st, t, b):
        """Is b the number of bytes there is room for?  True, False or None (not known)."""
        _, v, loc, lo, hi = t
        if hi is not None:
            if hi is b:
                return True
            if hi[0] == "c" and b[0] == "c":
                return hi[2] == b[2]
            return False if isint(b, 0) else None
        if isint(b, 0):
            return False
        if loc is None:
            return None
        ln = length(eng, st, loc)
        if b[0] == "c" and b[1] == "int":
            return b[2] == ln if ln is not None else None
        l, _ = parts(eng, b)
        if b in l:
            if b[0] in ("r", "o") and eng.sites[b[1]].name.endswith("::len"):
                return True
            return None
        if any(x[0] in ("r", "o") and eng.sites[x[1]].name.endswith("::len") for x in l):
            return False
        return None

    def length(eng, st, loc):
        x = eng.load_ref(st, loc)
        while x[0] == "mut":
            x = x[1]
        if x[0] == "rep" and isinstance(x[2], int):
            return x[2]
        if x[0] == "rep" and type(x[2]) is T and x[2][0] == "c":
            return x[2][2]
        ty = loctype(eng, loc)
        if ty.get("k") == "array" and isinstance(ty.get("n"), int):
            return ty["n"]
        return None

    def clear(st):
        drop(st, lambda t: t[0] == "part")

    def on_fact(eng, st, v, val, eq):
        on = None
        if looks or v[0] in ("c", "bin"):
            on = changing(eng, v)
        if on is not None and not errorof(eng, v):
            w = [x for x in eng.origins(v) if x[0] in ("r", "o") and x[1] in looks]
            s = eng.sites[w[0][1]] if w else None
            at = (s.span, eng.chain(s.ctx)) if s is not None else (root.span, ())
            ck.bad("decision depends on %s" % on, "put_data decides something by %s and not only by the data stored: the same data may get another key" % on, *at)
        live = [t for t in st.mon if t[0] == "part"]
        if not live:
            return
        # the end of the input
        if eq and val == 0 and isn(v) and any(t[1] is v[1] for t in live):
            clear(st)
            return
        if v[0] == "r" and eq and val == 1 and eng.sites[v[1]].name.endswith("::is_empty"):
            o = eng.origins(v)
            ids = {x[1] for x in o if x[0] in ("r", "o")}
            if any(t[1][1] in ids for t in live):           # fill_buf returned nothing; or no room is left
                clear(st)
            return
        if v[0] == "bin" and v[1] in ("Eq", "Lt") and eq:
            for a, b, full in ((v[2], v[3], (v[1] == "Eq" and val == 1) or (v[1] == "Lt" and val == 0)),
                               (v[3], v[2], v[1] == "Eq" and val == 1 or v[1] == "Lt" and val == 1)):
                l, pure = parts(eng, a)
                ns = [x for x in l if isn(x) and short(eng, x[1])]
                if isn(a) and short(eng, a[1]):
                    # one read's number against zero
                    if v[1] == "Lt" and a is v[2] and isint(b, 1) and val == 1 or v[1] == "Lt" and a is v[3] and isint(b, 0) and val == 0:
                        if any(t[1] is a[1] for t in live):
                            clear(st)
                            return
                if not ns:
                    computed(eng, st, live, a, b, full)
                    continue
                for t in live:
                    if isn(a) and not (t[3] is None or isint(t[3], 0)):
                        continue
                    k = ends(eng, st, t, b)
                    if not pure:
                        k = None
                    elif any(x[0] == "c" and x[1] == "int" and x[2] != 0 for x in l):
                        k = False
                    if k is None:
                        ck.notes.append("when a block is full was not recognised: that short reads are filled up is not decided") if full else None
                    if full and k is not False:
                        clear(st)
                        return
            return
        l, pure = parts(eng, v)
        if not isn(v) and any(isn(x) and short(eng, x[1]) for x in l) and eq and val == 0:
            if pure:
                clear(st)       # nothing was read at all
            else:
                ck.notes.append("when a block is full was not recognised: that short reads are filled up is not decided")
                clear(st)

    def computed(eng, st, live, a, b, full):
        """A read into a slice whose end was computed from the same length that is compared now."""
        if not full:
            return
        la, _ = parts(eng, a)
        la = {x for x in la if x[0] in ("r", "o") and eng.sites[x[1]].name.endswith("::len")}
        for t in live:
            if t[4] is not None and t[4][0] != "c" and la:
                names = {eng.sites[x[1]].name for x in eng.origins(t[4]) if x[0] in ("r", "o")}
                if any(x.endswith("::len") for x in names):
                    ck.notes.append("when a block is full was not recognised: that short reads are filled up is not decided")
                    clear(st)
                    return

    def short(eng, r):
        s = eng.sites[r[1]]
        return s.callee is not None and getattr(s.callee, "tm", None) in SHORT

    def errorof(eng, v):
        """Only whether looking failed, or a failure itself."""
        return v[0] == "discr" and v[1][0] in ("r", "o") and v[1][1] in looks and "Result<" in (eng.sites[v[1][1]].dty or {}).get("s", "")

    store = {f.id for f in an.p.fns.values() if f.d.get("method") and "DataStore" in (
        f.d.get("trait", "").split("::")[-1], f.d.get("intrait", "").split("::")[-1])}
    m = Mon(cut=store | {put_obj}, on_call=on_call, on_result=on_result, on_fact=on_fact)
    e = an.engine(m, budget=200000)
    outs = e.run(root.id)
    ck.absorb(e, outs)
    if not n["objects built"] or not n["objects stored"]:
        raise CheckError("put_data stores nothing")
    if not n["reads that may be short"] and not n["reads that end only with the block or the input"]:
        ck.notes.append("how the source is read was not recognised")
    ck.notes[:] = list(dict.fromkeys(ck.notes))
    n.into(ck)
