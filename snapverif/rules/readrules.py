"""C07: reading stored data."""
from .prov import *

OBJTYPE = "snapcd::object::ObjType"


def objfield(eng, v, field):
    """Is v the given field of an object fetched with get_obj?"""
    for x in strip(eng, v):
        y = x
        while y[0] == "v" or (y[0] == "f" and y[2] not in ("keys", "data", "objtype")):
            y = y[1]
        if y[0] == "f" and y[2] == field and calls(eng, y[1], r"(^|::)(get_obj|from_slice|from_reader)$"):
            return True
    return False


class Types:
    """The object types still possible on a path."""

    def __init__(self, an):
        self.names = [v[0] for v in an.adts[OBJTYPE]["v"]]

    def fact(self, eng, st, v, val, eq):
        if v[0] == "discr" and objfield(eng, v[1], "objtype"):
            cur = self.of(st)
            i = eng.variant_of(OBJTYPE, val)
            new = cur & {i} if eq else cur - {i}
            drop(st, lambda t: t[0] == "type")
            add(st, "type", frozenset(new))

    def of(self, st):
        for t in st.mon:
            if t[0] == "type":
                return t[1]
        return frozenset(range(len(self.names)))

    def possible(self, st):
        return {self.names[i] for i in self.of(st)}


def C07(an, ck):
    fn = an.fn("snapcd::file::read_data")
    get_obj = an.ds("get_obj")
    n = Seen()
    ty = Types(an)
    to = param(fn, 2)

    def src(eng, v):
        if objfield(eng, v, "keys"):
            return "keys"
        for x in strip(eng, v):
            if x[0] in ("r", "o") and re.search(r"::(chunks|chunks_mut|rchunks|split_at|iter)$", name_of(eng, x)):
                if any(objfield(eng, a[0], "data") for a in call_args(eng, x)):
                    return "data"
        return None
    each = Each(n, ck, fn, "the keys of an object", src, "read")

    def iswriter(eng, v):
        return to in roots(eng, v, mut=True) or root(v) == to

    def root(v):
        while v[0] in ("mut", "conv", "v", "f"):
            v = v[1]
        return v

    def on_call(eng, st, ev):
        each.call(eng, st, ev)
        at = (ev.span, eng.chain(ev.ctx))
        if ev.local is not None and ev.local.id == fn.id:
            n.hit("recursive reads", ev)
            if not iswriter(eng, ev.args[2]):
                ck.bad("destination of a recursive read", "a part is read into %s, not into the destination given" % eng.show(ev.args[2]), *at)
            for x in strip(eng, ev.args[1]):
                pend = [t for t in st.mon if t[0] == "pend" and t[1] == "keys"]
                if any(t[2] == x or t[2] in eng.origins(x) for t in pend):
                    for t in pend:
                        st.mon = st.mon - {t}
                elif any(objfield(eng, c, "keys") for y in eng.origins(x) for c, i in elem(eng, y)):
                    each.indexed(eng, st, [x], "keys")
                    if any(i is not None and i[0] == "c" and i[2:3] == (0,) for y in eng.origins(x) for c, i in elem(eng, y)):
                        add(st, "first", "keys")
                elif pend or not objfield(eng, x, "keys"):
                    ck.bad("key of a recursive read", "the part that is read is %s, not one of the keys of the object" % eng.show(x), *at)
            return
        if ev.tm and ev.tm[0] == "Write" and ev.args and iswriter(eng, ev.args[0]):
            m = ev.tm[1]
            if m in ("flush", "by_ref"):
                return
            n.hit("writes to the destination", ev)
            if m not in ("write_all", "write_all_vectored"):
                ck.bad("%s to the destination" % m, "%s may write only a part of the data" % ev.name, *at)
                return
            if each.used(eng, st, ev.args[1:], "data"):
                return
            if objfield(eng, ev.args[1], "data"):
                if has(st, "wrote"):
                    ck.bad("data written twice", "the data of an object can be written twice", *at)
                add(st, "wrote")
            else:
                ck.bad("bytes written", "%s is written, not the whole data of the object" % eng.show(ev.args[1]), *at)
        elif re.search(r"io::(copy|util::copy)$|^std::io::copy", ev.name) and len(ev.args) > 1 and iswriter(eng, ev.args[1]):
            n.hit("writes to the destination", ev)
            if any(objfield(eng, y, "data") for y in eng.origins(ev.args[0])):
                add(st, "wrote")
        elif re.search(r"::(chunks_exact|chunks_exact_mut|rchunks|rchunks_exact)$", ev.name) and objfield(eng, ev.args[0], "data"):
            ck.bad("%s of the data" % last(ev.name), "%s does not give all of the data in order" % ev.name, *at)

    def on_fact(eng, st, v, val, eq):
        ty.fact(eng, st, v, val, eq)
        each.fact(eng, st, v, val, eq)
        for x in strip(eng, v):
            if x[0] in ("r", "o") and EMPTY.match(name_of(eng, x)) and (val == 1) == eq:
                for a in call_args(eng, x):
                    if objfield(eng, a[0], "data"):
                        add(st, "wrote")
                    if objfield(eng, a[0], "keys"):
                        add(st, "ended", "keys")

    def on_item(eng, st, ev, it, v):
        each.item(eng, st, ev, it, v)

    def on_end(eng, st, ev, it):
        each.end(eng, st, ev, it)
        if each.key(eng, it[2][0]) == "data":
            add(st, "wrote")

    def on_result(eng, st, ev, v):
        if UNORDERED.match((ev.dty or {}).get("s", "")) and any(objfield(eng, y, "keys") for a in ev.args for y in eng.origins(a)):
            ck.bad("keys collected into a set", "the keys of an object lose their order or repetitions", ev.span, eng.chain(ev.ctx))

    def on_ret(eng, st, f, ctx, v):
        if not outermost(eng, ctx) or okval(v) is None:
            return
        each.ret(eng, st, f, v)
        for t in sorted(ty.possible(st)):
            n.hit("kinds of object that reading can succeed for", t)
            if t == "FileBlob":
                if not has(st, "wrote"):
                    ck.bad("FileBlob not written", "reading a chunk can succeed without writing its data", f.span)
            elif t == "FileBlobTree":
                if not has(st, "ended", "keys"):
                    ck.bad("FileBlobTree not read", "reading a list of chunks can succeed without reading all of them", f.span)
            elif t == "FSItemFile":
                if not has(st, "ended", "keys") and not has(st, "first", "keys"):
                    ck.bad("FSItemFile not read", "reading a file can succeed without reading its contents", f.span)
            else:
                ck.bad("%s read as file contents" % t, "reading an object of type %s succeeds although it is not file contents" % t, f.span)

    e = an.engine(Mon(cut=[get_obj], on_call=on_call, on_ret=on_ret, on_fact=on_fact, on_item=on_item, on_end=on_end, on_result=on_result))
    o = e.run(fn.id)
    ck.absorb(e, o)
    # the object read is the one asked for
    for s in e.sites.values():
        if re.search(r"(^|::)get_obj$", s.name):
            for a in s.args:
                n.hit("objects looked up", s.sid)
                if param(fn, 1) not in roots(e, a[-1]):
                    ck.bad("key looked up", "read_data looks up %s, not the key given" % e.show(a[-1]), s.span)
    if not n["objects looked up"]:
        ck.bad("nothing looked up", "read_data looks up no object", fn.span)
    n.into(ck)
