"""C06: what happens to the bytes and keys held in buffers while data is stored."""
import re

from ..core import *
from .prov import roots

RANGE = "core::ops::range::"
READS = (("Read", "read"), ("Read", "read_to_end"))


def rng(v, eng=None):
    """(lo, hi) of a range value, None for an open end; or None."""
    if eng is not None and v[0] in ("r", "o") and eng.sites[v[1]].name.endswith("RangeInclusive::new"):
        a = sorted(eng.sites[v[1]].args, key=repr)[0]
        return a[0], mk("incl", a[1])
    if v[0] == "agg" and v[1].startswith(RANGE):
        k = v[1][len(RANGE):]
        z = mk("c", "int", 0, "usize")
        if k == "Range":
            return v[3][0], v[3][1]
        if k == "RangeTo":
            return z, v[3][0]
        if k == "RangeToInclusive":
            return z, mk("incl", v[3][0])
        if k == "RangeFrom":
            return v[3][0], None
        if k == "RangeFull":
            return z, None
    if v[0] == "c" and "RangeFull" in repr(v):
        return mk("c", "int", 0, "usize"), None
    return None


def isint(v, n):
    return v is not None and v[0] == "c" and v[1] == "int" and v[2] == n


def lin(eng, v):
    """(base term or None, offset): constants and additions of constants."""
    if type(v) is not T:
        return (None, v) if isinstance(v, int) else (v, 0)
    if v[0] == "c" and v[1] == "int":
        return None, v[2]
    if v[0] == "f" and v[2] in (0, "0") and v[1][0] in ("r", "o") and eng.sites[v[1][1]].name.startswith("bin:"):
        v = v[1]
    if v[0] in ("r", "o"):
        s = eng.sites[v[1]]
        if s.name in ("bin:Add", "bin:Sub") and len(s.args) == 1:
            a, b = next(iter(s.args))
            sg = 1 if s.name == "bin:Add" else -1
            la, lb = lin(eng, a), lin(eng, b)
            if lb[0] is None:
                return la[0], la[1] + sg * lb[1]
            if la[0] is None and sg == 1:
                return lb[0], lb[1] + la[1]
    return v, 0


REORD = {"insert", "reverse", "sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by",
         "sort_unstable_by_key", "dedup", "dedup_by", "dedup_by_key", "retain", "retain_mut", "swap_remove", "swap",
         "rotate_left", "rotate_right", "fill", "resize", "resize_with", "splice"}


def base(eng, st, r):
    """The buffer a reference finally refers to."""
    n = 0
    while r[0] == "ref" and n < 40:
        x = eng.load_ref(st, r)
        if x[0] != "ref":
            return r
        r = x
        n += 1
    return r if r[0] == "ref" else None


def loctype(eng, loc):
    """The declared type of the local a location lies in, and of the element."""
    f = eng.prog.fn(eng.ctxs[loc[1]][2])
    return f.locals[loc[2]][0] if f is not None and loc[2] < len(f.locals) else {"s": "?"}


def idx(loc):
    """The index a location selects in an array of buffers, or None."""
    for e in reversed(loc[3]):
        if e[0] == "i":
            return e[2] if len(e) > 2 else (mk("c", "int", e[1], "usize") if len(e) > 1 and e[1] is not None else None)
    return None


def C06(an, ck):
    root = an.fn("snapcd::file::put_data")
    put_obj = an.ds("put_obj").id
    new = an.assoc("Object", "new").id
    newo = an.assoc("Object", "new_owned").id
    BLOB, TREE = an.variant("snapcd::object::ObjType", "FileBlob"), an.variant("snapcd::object::ObjType", "FileBlobTree")
    fd, fk, ft = (an.field("snapcd::object::Object", x) for x in ("data", "keys", "objtype"))
    n = Seen()
    slices = {}
    reads = {}

    def where(eng, ev):
        return ev.span, eng.chain(ev.ctx)

    # --- state of a byte buffer: tokens ("b", loc, state, lo, hi)
    def get(st, loc):
        for t in st.mon:
            if t[0] == "b" and t[1] is loc:
                return t
        return ("b", loc, "E")

    def put(st, loc, *state):
        drop(st, lambda t: t[0] == "b" and t[1] is loc)
        if state[0] != "E":
            add(st, "b", loc, *state)

    def src(eng, st, raw, val):
        """What a value handed over is: (buffer location or None, range or None)"""
        r = raw
        if val[0] == "r" and val[1] in slices:
            return slices[val[1]]
        loc = base(eng, st, r) if r[0] == "ref" else None
        return loc, None

    def tracked(eng, loc):
        return loc is not None and any(t in loctype(eng, loc)["s"] or True for t in ("Vec<",))

    def copied(eng, st, ev, loc, r, val):
        """The bytes of a buffer are handed on."""
        if loc is None:
            return
        t = get(st, loc)
        n.hit("buffer contents handed on", ev)
        known = reads.get(loc)
        if known is not None:
            return readcopy(eng, st, ev, loc, r, val)
        if t[2] == "U":
            return
        if t[2] in ("C", "CP"):
            ck.bad("contents repeated in %s" % ev.fn.short, "the contents of a buffer that were already passed on are passed on again",
                   *where(eng, ev))
            return
        if t[2] == "E":
            return
        if r is None or (isint(r[0], 0) and r[1] is None):
            put(st, loc, "C")
        elif isint(r[0], 0):
            put(st, loc, "CP", r[0], r[1])
        elif r[0][0] == "c" and r[0][1] == "int":
            ck.bad("start of the buffer skipped in %s" % ev.fn.short, "the first bytes of a buffer are left out when it is passed on", *where(eng, ev))
        else:
            put(st, loc, "U")

    def isread(eng, x):
        s = eng.sites[x[1]]
        return s.callee is not None and getattr(s.callee, "tm", None) in READS

    def addends(eng, v):
        """What v is the sum of (if it is a sum)."""
        out, todo, seen = set(), [v], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x[0] == "f" and x[2] in (0, "0"):
                x = x[1]
            if x[0] in ("r", "o") and re.match(r"bin:Add", eng.sites[x[1]].name):
                todo += [z for y in eng.sites[x[1]].args for z in y]
            elif x[0] == "or":
                todo += list(x[1])
            elif x is not v and x[0] == "v" and x[2:] == (0, 0):
                out.add(x[1])
        return out

    def summed(eng, v, ln):
        """Is v a sum that what a read returned goes into?"""
        return ln[1][0] in ("r", "o") and any(x[0] in ("r", "o") and x[1] == ln[1][1] for x in addends(eng, v))

    def readcopy(eng, st, ev, loc, r, val):
        """The buffer that was read into is used."""
        for t in list(st.mon):
            if t[0] == "got" and t[1] is loc:
                ln = mk("v", t[2], 0, 0)
                n.hit("uses of the bytes read", ev)
                if r is not None:
                    if not isint(r[0], 0):
                        ck.bad("read bytes skipped in %s" % ev.fn.short, "the bytes read are used from an offset on: the first ones are lost",
                               *where(eng, ev))
                    elif r[1] is not ln and not (t[3] and r[1] is not None and summed(eng, r[1], ln)):
                            ck.bad("wrong length of read in %s" % ev.fn.short,
                                   "the part of the read buffer that is used is not the part the read filled", *where(eng, ev))
                elif ln not in eng.origins(val):
                    ck.bad("whole read buffer in %s" % ev.fn.short,
                           "the whole read buffer is used whatever number of bytes the read returned", *where(eng, ev))
                drop(st, lambda x: x == t)

    def unknown(eng, st, v):
        """v may be any part of the buffers it derives from."""
        o = None
        for t in list(st.mon):
            if t[0] == "b" and t[2] != "U":
                o = eng.origins(v) if o is None else o
                if eng.load_ref(st, t[1]) in o:
                    put(st, t[1], "U")

    def grow(eng, st, ev, loc):
        if loc is None:
            return
        t = get(st, loc)
        if t[2] == "U":
            return
        if t[2] in ("C", "CP"):
            ck.bad("append after copy in %s" % ev.fn.short,
                   "data is appended to a buffer whose contents were already passed on and were not cleared", *where(eng, ev))
        put(st, loc, "P")

    def clear(eng, st, ev, loc, how):
        if loc is None:
            return
        t = get(st, loc)
        n.hit("buffer cleared", ev)
        if t[2] in ("P", "CP"):
            ck.bad("pending data cleared in %s" % ev.fn.short, "%s discards buffered data that was not stored or passed on" % how, *where(eng, ev))
        put(st, loc, "E")

    def iskeys(ev, i=0):
        return i < len(ev.argtys) and "Key" in ev.argtys[i]["s"]

    def isbytes(ev, i=0):
        return i < len(ev.argtys) and ("Vec<u8" in ev.argtys[i]["s"] or "[u8" in ev.argtys[i]["s"])

    # --- keys
    def push(eng, st, ev, loc, v):
        add(st, "pushed any")
        vs = [t for t in st.mon if t[0] == "key" and t[1] in eng.origins(v)] if v is not None else []
        done = [t for t in st.mon if t[0] == "kept" and t[1] is v]
        n.hit("keys recorded", ev)
        if done:
            ck.bad("key recorded twice in %s" % ev.fn.short, "the key of one stored object is recorded twice", *where(eng, ev))
        for t in vs:
            drop(st, lambda x: x == t)
            add(st, "kept", t[1])
        if loc is None:
            return
        j = idx(loc)
        for t in list(st.mon):
            if t[0] == "level" and t[1] is v and j is not None:
                want = t[2]
                a, b = lin(eng, j), lin(eng, want) if want is not None else (None, -1)
                if a[0] is b[0] and a[1] != b[1] + 1:
                    ck.bad("key at the wrong level in %s" % ev.fn.short,
                           "the key of the stored %s is recorded at a level other than the next one up" % ("data" if want is None else "key list"),
                           *where(eng, ev))

    def on_call(eng, st, ev):
        nm = ev.name
        sh = nm.split("::")[-1]
        if nm in ("Index::index", "IndexMut::index_mut") or nm in ("std::slice::get", "std::vec::Vec::get"):
            r = rng(ev.args[1], eng)
            loc = base(eng, st, ev.raw[0])
            if loc is not None and r is not None:
                slices[ev.sid] = (loc, r)
            elif ev.raw[0][0] in ("r",) and ev.raw[0][1] in slices:
                slices[ev.sid] = (slices[ev.raw[0][1]][0], (mk("c", "unk2"), None))
            else:
                slices.pop(ev.sid, None)
            return
        if ev.local is not None and ev.local.id in (new, newo):
            n.hit("objects built", ev)
            loc, r = src(eng, st, ev.raw[0], ev.args[0])
            hasdata = False
            if loc is not None and isbytes(ev, 0) and get(st, loc) is not None and "Vec" in loctype(eng, loc)["s"] + ev.argtys[0]["s"]:
                hasdata = get(st, loc)[2] != "E" or "Vec<u8" in loctype(eng, loc)["s"]
                copied(eng, st, ev, loc, r, ev.args[0])
            if loc is None:
                unknown(eng, st, ev.args[0])
            if any(t[0] == "built" for t in st.mon):
                ck.bad("object never stored in %s" % ev.fn.short, "an object is built from buffered data and then not stored", *where(eng, ev))
            kl, kr = src(eng, st, ev.raw[1], ev.args[1])
            haskeys = kl is not None and "Key" in loctype(eng, kl)["s"]
            ot = ev.args[2]
            if ot[0] == "agg":
                if haskeys and ot[2] != TREE:
                    ck.bad("key list stored as %s in %s" % (eng.show(ot), ev.fn.short), "a list of chunk keys is stored with an object type that is not read as one", *where(eng, ev))
                if hasdata and not haskeys and ot[2] != BLOB:
                    ck.bad("data stored as %s in %s" % (eng.show(ot), ev.fn.short), "file data is stored with an object type that is not read as data", *where(eng, ev))
            if haskeys:
                if kr is not None and not (isint(kr[0], 0) and kr[1] is None):
                    ck.bad("part of a level in %s" % ev.fn.short, "only a part of a level's keys is stored", *where(eng, ev))
                if has(st, "stored", kl) and idx(kl) is not None:
                    pass
                drop(st, lambda t: t[0] in ("stored", "level0"))
                add(st, "stored", kl)
                add(st, "folded")
                st.mon = st.mon | {("built", kl)}
            elif hasdata:
                st.mon = st.mon | {("built", None)}
            return
        if ev.local is not None and ev.local.id == put_obj:
            r = mk("r", ev.sid)
            drop(st, lambda t: t[0] in ("kept", "level", "list", "data") and (ev.sid in sids(t[1]) or t[0] == "kept"))
            return
        if ev.tm in READS:
            n.hit("reads", ev)
            for t in st.mon:
                if t[0] == "key":
                    ck.bad("key dropped in %s" % ev.fn.short, "the key of a stored object is not recorded before the next read", *where(eng, ev))
            drop(st, lambda t: t[0] in ("eof", "rend", "kend", "folded", "key", "kept", "level", "list", "data", "popped", "len1", "last"))
            sl, r = src(eng, st, ev.raw[1], ev.args[1])
            on = bool(r is not None and r[0] is not None and not isint(r[0], 0))       # reads on behind what was read before
            for t in list(st.mon):
                if t[0] == "got" and not has(st, "intr") and not (on and t[1] is sl):
                    ck.bad("read bytes dropped in %s" % ev.fn.short, "bytes that were read are not kept before the next read", *where(eng, ev))
                if t[0] == "stored" and idx(t[1]) is not None:
                    ck.bad("level kept in %s" % ev.fn.short, "the keys of a level that was stored are kept and would be stored again", *where(eng, ev))
                if t[0] == "drained":
                    ck.bad("drained data dropped in %s" % ev.fn.short, "data taken out of a buffer is not passed on", *where(eng, ev))
            drop(st, lambda t: t[0] == "drained" or t[0] == "got" and not (on and t[1] is sl))
            took = limited(eng, st, ev)
            if took is not None:
                add(st, "limit", took)
            if ev.tm == ("Read", "read_to_end"):
                grow(eng, st, ev, sl)
                add(st, "reading", None, took is None)
            elif sl is not None:
                reads[sl] = True
                add(st, "reading", sl, on or r is not None)
            return
        # drained data that is used
        for t in list(st.mon):
            if t[0] == "drained" and any(t[1] in eng.origins(a) for a in ev.args) and sh not in ("drop", "next", "into_iter"):
                drop(st, lambda x: x == t)
        if not nm.startswith(("std::vec::Vec::", "std::slice::", "Extend::", "std::mem::", "std::collections::VecDeque", "std::vec_deque")):
            return
        if not ev.raw:
            return
        loc = base(eng, st, ev.raw[0]) if ev.raw[0][0] == "ref" else None
        if loc is None:
            return
        mutable = ev.argtys and ev.argtys[0]["k"] == "ref" and ev.argtys[0].get("m")
        if sh in REORD and mutable and (iskeys(ev) or isbytes(ev)):
            ck.bad("%s in %s" % (sh, ev.fn.short), "%s changes the order or number of buffered data or keys" % nm, *where(eng, ev))
            return
        if iskeys(ev):
            if sh in ("push", "push_back") and mutable:
                push(eng, st, ev, loc, ev.args[1])
            elif sh == "clear" or (sh == "truncate" and isint(ev.args[1], 0)):
                n.hit("levels cleared", ev)
                if not any(t[0] == "stored" and t[1] is loc for t in st.mon):
                    ck.bad("level cleared in %s" % ev.fn.short, "the keys of a level are discarded without having been stored as an object",
                           *where(eng, ev))
                drop(st, lambda t: t[0] == "stored" and t[1] is loc)
            elif sh in ("take", "replace", "drain", "split_off", "append"):
                drop(st, lambda t: t[0] == "stored" and t[1] is loc)
            elif sh in ("pop", "remove", "swap_remove"):
                add(st, "popped", loc)
            elif sh == "truncate":
                ck.bad("level truncated in %s" % ev.fn.short, "keys of a level are discarded", *where(eng, ev))
            return
        if not isbytes(ev):
            return
        if sh in ("extend_from_slice", "extend", "push", "append", "extend_from_within", "push_back"):
            if len(ev.raw) > 1 and ev.raw[1][0] != "c":
                sl, r = src(eng, st, ev.raw[1], ev.args[1])
                if sh == "append" and sl is not None:
                    t = get(st, sl)
                    if t[2] in ("C", "CP"):
                        ck.bad("contents repeated in %s" % ev.fn.short, "the contents of a buffer that were already passed on are passed on again", *where(eng, ev))
                    put(st, sl, "E")
                    if t[2] == "E":
                        return
                elif sl is not None:
                    e = get(st, sl)[2] == "E" and sl not in reads
                    copied(eng, st, ev, sl, r, ev.args[1])
                    if e:
                        return
                else:
                    unknown(eng, st, ev.args[1])
                if sl is None:
                    # an iterator over (part of) the bytes that were read
                    for t in list(st.mon):
                        if t[0] == "got":
                            readcopy(eng, st, ev, t[1], None, ev.args[1])
            grow(eng, st, ev, loc)
        elif sh == "clear" or (sh == "truncate" and isint(ev.args[1], 0)):
            clear(eng, st, ev, loc, sh)
        elif sh == "truncate":
            if get(st, loc)[2] not in ("U", "E"):
                ck.bad("truncate in %s" % ev.fn.short, "buffered data is cut off", *where(eng, ev))
        elif sh == "drain":
            r = rng(ev.args[1], eng)
            t = get(st, loc)
            n.hit("buffer drained", ev)
            if t[2] == "CP":
                if r is not None and (r[0] is not t[3] or r[1] is not t[4]):
                    ck.bad("drain of another range in %s" % ev.fn.short,
                           "the range removed from the buffer is not the range that was passed on (%s)" % (
                               "data is lost or repeated"), *where(eng, ev))
                put(st, loc, "P")
            elif t[2] == "C":
                if r is not None and not (isint(r[0], 0) and r[1] is None):
                    ck.bad("partial drain in %s" % ev.fn.short, "only a part of the data that was passed on is removed from the buffer: the rest is repeated",
                           *where(eng, ev))
                put(st, loc, "E")
            elif t[2] == "P":
                add(st, "draining", ev.sid)
                if r is not None and isint(r[0], 0) and r[1] is None:
                    put(st, loc, "E")
                else:
                    put(st, loc, "P")
        elif sh in ("split_off", "swap", "pop", "remove", "drain_filter", "extract_if", "take", "replace", "leak"):
            put(st, loc, "U")

    def on_result(eng, st, ev, v):
        if ev.local is not None and ev.local.id == put_obj:
            o = ev.args[1]
            n.hit("objects stored", ev)
            b = [t for t in st.mon if t[0] == "built"]
            out = []
            for s2, x, good in fork(eng, st, v):
                if good:
                    k = mk("v", v, 0, 0)
                    st2 = s2
                    drop(st2, lambda t: t[0] == "built")
                    st2.mon = st2.mon | {("key", k)}
                    if b:
                        kl = b[0][1]
                        st2.mon = st2.mon | {("level", k, idx(kl) if kl is not None else None)}
                    st2.mon = st2.mon | {("data" if not b or b[0][1] is None else "list", k, b[0][1] if b else None)}
                out.append((s2, x))
            return out
        if has(st, "draining", ev.sid):
            drop(st, lambda t: t[0] == "draining")
            st.mon = st.mon | {("drained", v)}
            return None
        if ev.tm == ("Read", "take"):
            drop(st, lambda t: t[0] == "spent" and t[1] == ev.sid)
        if ev.tm in READS:
            out = []
            locs = [t for t in st.mon if t[0] == "reading"]
            lim = [t[1] for t in st.mon if t[0] == "limit"]
            spent = any(has(st, "spent", x) for x in lim)
            drop(st, lambda t: t[0] in ("reading", "limit"))
            for x in lim:
                add(st, "spent", x)
            for s2, x, good in fork(eng, st, v):
                if good:
                    if not spent:
                        s2.mon = s2.mon | {("last", v)}
                    for t in locs:
                        if t[1] is not None:
                            s2.mon = s2.mon | {("got", t[1], v, t[2])}
                        elif t[2]:
                            add(s2, "eof")
                out.append((s2, x))
            return out
        return None

    def limited(eng, st, ev):
        """The `take` a read goes through: its site, or None."""
        for x in roots(eng, ev.args[0], mut=True):
            if x[0] in ("r", "o") and eng.sites[x[1]].name == "Read::take":
                s = eng.sites[x[1]]
                for a in s.args:
                    if len(a) > 1 and isint(a[1], 0):
                        ck.bad("empty read in %s" % ev.fn.short, "no more than 0 bytes are read: that looks like the end of the input", *where(eng, ev))
                return x[1]
        return None

    def on_fact(eng, st, v, val, eq):
        if eq and val == 0 and any(x[0] in ("r", "o") and isread(eng, x) for x in addends(eng, v)):
            drop(st, lambda x: x[0] in ("got", "last"))
            add(st, "eof")
        # the last read returned nothing
        for t in list(st.mon):
            if t[0] == "last":
                ln = mk("v", t[1], 0, 0)
                z = False
                if v is ln:
                    z = eq and val == 0
                elif v[0] == "bin" and v[1] == "Lt" and ln in (v[2], v[3]) and eq:
                    z = (v[2] is ln and isint(v[3], 1) and val == 1) or (v[3] is ln and isint(v[2], 0) and val == 0)
                elif v[0] in ("r",) and eng.sites[v[1]].name.endswith("is_empty") and eq and val == 1 and ln in eng.origins(v):
                    z = True
                if z:
                    drop(st, lambda x: x[0] == "last" or x[0] == "got" and x[2] is t[1])
                    add(st, "eof")
        # a buffer is empty
        if eq and v[0] == "r":
            s = eng.sites[v[1]]
            if s.name.endswith("::is_empty") and val == 1:
                loc = empties.get(v[1])
                if loc is not None:
                    put(st, loc, "E")
            if s.name.endswith("::len") and val == 1:
                add(st, "len1")
            if s.name.endswith("::len") and val == 0:
                loc = empties.get(v[1])
                if loc is not None:
                    put(st, loc, "E")
        if v[0] == "bin" and v[1] == "Eq" and eq and val == 1:
            for a, b in ((v[2], v[3]), (v[3], v[2])):
                if b[0] == "c" and b[1] == "int" and a[0] == "r" and eng.sites[a[1]].name.endswith("::len"):
                    on_fact(eng, st, a, b[2], True)

    empties = {}

    def on_call2(eng, st, ev):
        if ev.name.endswith(("::is_empty", "::len")) and ev.raw and ev.raw[0][0] == "ref":
            loc = base(eng, st, ev.raw[0])
            if loc is not None:
                empties[ev.sid] = loc
        on_call(eng, st, ev)

    def on_end(eng, st, ev, it):
        b = it[2][0]
        r = rng(b)
        if r is not None:
            st.mon = st.mon | {("rend", r[0], r[1])}
        elif it[3] and "Key" in it[3] and "Vec" in it[3]:
            add(st, "kend")

    def levels(eng, st):
        """The array of levels, if there is one: its length."""
        for loc in list(seenlevels):
            t = loctype(eng, loc)
            if t.get("k") == "array" and isinstance(t.get("n"), int):
                return t["n"]
        return None

    seenlevels = set()

    def on_ret(eng, st, fn, ctx, v):
        if eng.ctxs[ctx][0] != 0 or not (v[0] == "agg" and v[1] == RESULT and v[2] == 0):
            return
        n.hit("successful ends", ctx, repr(v))
        at = (fn.span, eng.chain(ctx))
        for t in st.mon:
            if t[0] == "b" and t[2] in ("P", "CP"):
                ck.bad("data pending at the end in %s" % fn.short, "%s can succeed while a buffer still holds data that was not stored" % fn.pretty(), *at)
            if t[0] == "built":
                ck.bad("object never stored in %s" % fn.short, "an object is built from buffered data and then not stored", *at)
            if t[0] == "got":
                ck.bad("read bytes dropped in %s" % fn.short, "%s can succeed although bytes that were read were not kept" % fn.pretty(), *at)
            if t[0] == "drained":
                ck.bad("drained data dropped in %s" % fn.short, "data taken out of a buffer is not passed on", *at)
            if t[0] in ("stored", "level", "list", "data") and type(t[-1]) is T and t[-1][0] == "ref":
                seenlevels.add(t[-1])
        if not has(st, "eof") and n["reads"]:
            ck.bad("end before the end of the input in %s" % fn.short, "%s can succeed before a read has returned the end of the input" % fn.pretty(), *at)
        ret = v[3][0]
        org = eng.origins(ret)
        popped = [t for t in st.mon if t[0] == "popped"]
        byp = bool(popped) and not any(t[0] == "key" and t[1] is ret for t in st.mon)
        for t in st.mon:
            if t[0] == "key" and t[1] is not ret and not (byp and has(st, "len1") and any(
                    x[0] == "list" and x[1] is t[1] for x in st.mon)):
                ck.bad("key dropped in %s" % fn.short, "%s can succeed without recording the key of an object it stored" % fn.pretty(), *at)
        N = levels(eng, st)
        if N is None:
            return
        ends = [t for t in st.mon if t[0] == "rend"]
        kinds = [(t[0], t[2]) for t in st.mon if t[0] in ("data", "list") and t[1] is ret]
        if kinds and kinds[0][0] == "list" and kinds[0][1] is not None:
            j = idx(kinds[0][1])
            if j is not None and j[0] == "c" and j[2] != N - 1:
                ck.bad("levels above %d ignored in %s" % (j[2], fn.short), "the returned key is that of level %d: the keys of the levels above it are lost" % j[2], *at)
            if j is not None and j[0] == "c" and j[2] == N - 1:
                c = [t for t in ends if isint(t[1], 0) and t[2] is not None and t[2][0] == "c"]
                if c and not any(t[2][2] >= N - 1 for t in c):
                    ck.bad("levels not folded in %s" % fn.short, "only %d of the %d lower levels are folded into the returned one" % (
                        max(t[2][2] for t in c), N - 1), *at)
                elif not ends and not any(t[0] == "folded" for t in st.mon):
                    ck.bad("levels not folded in %s" % fn.short, "the lower levels are not folded into the returned one", *at)
                if not c and any(t[1][0] == "c" and t[1][2] > 0 for t in ends) and not any(isint(t[1], 0) for t in ends):
                    ck.bad("levels not folded in %s" % fn.short, "the lowest levels are not folded into the returned one", *at)
        elif has(st, "pushed any") and (byp or (kinds and kinds[0][0] == "data")):
            what = "the only key of a level" if byp else "a single chunk"
            if has(st, "kend"):
                return
            if byp:
                li = idx(popped[0][1])
                good = [t for t in ends if t[2] is not None and not isint(t[2], None) and (t[2][0] != "c" or t[2][2] >= N)]
                good = [t for t in good if li is None or lin(eng, t[1])[0] is not lin(eng, li)[0] or lin(eng, t[1])[1] <= lin(eng, li)[1] + 1]
            else:
                good = [t for t in ends if t[2] is not None and (t[2][0] != "c" or t[2][2] >= N) and (t[1][0] != "c" or t[1][2] == 0)]
            if not good:
                ck.bad("%s returned without looking at every level in %s" % (what, fn.short),
                       "%s is returned although a level that was not checked to be empty may hold keys" % what, *at)

    def on_store(eng, st, ctx, place, v):
        r, b, p = place
        if r is None or not any(t[0] == "b" and t[1] is r for t in st.mon):
            return
        t = get(st, r)
        fn = eng.prog.fn(eng.ctxs[ctx][2])
        if v[0] == "r" and eng.sites[v[1]].name.split("::")[-1] in ("new", "with_capacity", "default"):
            if t[2] in ("P", "CP"):
                ck.bad("pending data replaced in %s" % fn.short, "a buffer that holds data that was not stored is replaced by an empty one", fn.span, eng.chain(ctx))
            put(st, r, "E")
        else:
            put(st, r, "U")

    m = Mon(cut={put_obj}, on_call=on_call2, on_result=on_result, on_ret=on_ret, on_fact=on_fact, on_end=on_end)
    m.store = on_store
    e = an.engine(m, budget=200000)
    outs = e.run(root.id)
    ck.absorb(e, outs)
    if not n["objects stored"] or not n["successful ends"]:
        raise CheckError("put_data stores nothing")
    if not n["reads"]:
        ck.notes.append("how the source is read was not recognised: that all of it is read, and kept, is not decided")
    n.into(ck)
