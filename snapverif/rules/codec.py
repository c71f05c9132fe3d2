"""C19 and C31: objects against the values they encode."""
from .prov import *
from .readrules import OBJTYPE

REST = mk("c", "rest")
OBJECT = "snapcd::object::Object"
COMMIT = "snapcd::commit::Commit"
ATTRS = "snapcd::commit::CommitAttrs"
FSITEM = "snapcd::dir::FSItem"
ITEMTYPE = "snapcd::dir::FSItemType"
DECODE = re.compile(r"(^|::)(from_slice|from_reader|from_value|from_mut_slice|from_slice_with_scratch|deserialize)$")
ENCODE = re.compile(r"(^|::)(to_vec|to_value|to_vec_packed|to_writer|to_writer_packed)$")
# fields of the object that serde does not see: they travel in Object.keys
CHILDREN = {FSITEM: {"children"}, ATTRS: set(), COMMIT: {"tree", "parents"}}
PAIRS = {("FSItemDir", "Dir"), ("FSItemFile", "File")}


def sources(eng, v, rx, d=0):
    """What v was made from, looking through calls matching rx: {(term, through a call?)}"""
    out = set()
    for x in roots(eng, v):
        y = x
        while y[0] == "mut":
            y = y[1]
        if d < 12 and y[0] in ("r", "o") and rx.search(name_of(eng, y)):
            for a in call_args(eng, y):
                if a:
                    out |= {(z, True) for z, _ in sources(eng, a[0], rx, d + 1)}
        elif d < 12 and y[0] in ("r", "o") and name_of(eng, y).endswith("Deserializer::from_slice"):
            for a in call_args(eng, y):
                out |= sources(eng, a[0], rx, d + 1)
        else:
            out.add((x, False))
    return out


def facts_of(an, adt, term, possible_tokens):
    return possible_tokens


class Variants:
    """The variants of enumeration `adt` still possible on a path for the values `is_` accepts."""

    def __init__(self, an, adt, is_, tag):
        self.adt, self.is_, self.tag = adt, is_, tag
        self.names = [v[0] for v in an.adts[adt]["v"]]

    def fact(self, eng, st, v, val, eq):
        if v[0] == "discr" and self.is_(eng, v[1]):
            self.cut(st, eng.variant_of(self.adt, val), eq)
        elif v[0] == "bin" and v[1] in ("Eq", "Ne"):
            # comparison with a constant of the type
            for a, b in ((v[2], v[3]), (v[3], v[2])):
                if self.is_(eng, a[1] if a[0] == "discr" else a):
                    for y in strip(eng, b):
                        i = None
                        if y[0] == "agg" and y[1] == self.adt:
                            i = y[2]
                        elif y[0] == "c" and y[1] == "int" and a[0] == "discr":
                            i = eng.variant_of(self.adt, y[2])
                        elif y[0] == "discr" and y[1][0] == "agg" and y[1][1] == self.adt:
                            i = y[1][2]
                        if i is not None:
                            self.cut(st, i, ((val == 1) == eq) == (v[1] == "Eq"))

    def cut(self, st, i, eq):
        cur = self.of(st)
        new = cur & {i} if eq else cur - {i}
        drop(st, lambda t: t[0] == self.tag)
        add(st, self.tag, frozenset(new))

    def of(self, st):
        for t in st.mon:
            if t[0] == self.tag:
                return t[1]
        return frozenset(range(len(self.names)))

    def possible(self, st, eng=None, v=None):
        if v is not None:
            xs = strip(eng, v)
            if xs and all(x[0] == "agg" and x[1] == self.adt for x in xs):
                return {self.names[x[2]] for x in xs}
        return {self.names[i] for i in self.of(st)}


def isfield(fn, name):
    p = param(fn, 0)

    def is_(eng, v):
        for x in strip(eng, v):
            if x[0] == "f" and x[2] == name and p in strip(eng, x[1]):
                return True
        return False
    return is_


def itemkind(eng, v):
    """The kind recorded in a decoded item (or in the value itself)."""
    return any(x[0] == "f" and x[2] == "itemtype" for x in strip(eng, v))


def C31(an, ck):
    n = Seen()
    item = an.field(FSITEM, "itemtype")
    for what, want in (("Commit", {"Commit"}), ("FSItem", None)):
        for fn in an.decoders(what):
            ty = Variants(an, OBJTYPE, isfield(fn, "objtype"), "type")
            kd = Variants(an, ITEMTYPE, itemkind, "kind")

            def on_fact(eng, st, v, val, eq):
                ty.fact(eng, st, v, val, eq)
                kd.fact(eng, st, v, val, eq)

            def on_ret(eng, st, f, ctx, v):
                if not outermost(eng, ctx):
                    return
                p = okval(v)
                if p is None:
                    return
                ts = ty.possible(st)
                for t in sorted(ts):
                    n.hit("types of object a decoder can succeed for", fn.id, t)
                if want is not None:
                    for t in sorted(ts - want):
                        ck.bad("%s decoded from %s" % (what, t), "an object of type %s can be decoded as a commit" % t, fn.span)
                    return
                ks = {"Dir", "File"} if p is False else kd.possible(st, eng, eng.proj(p, ("f", item, "itemtype")))
                for t in sorted(ts):
                    for k in sorted(ks):
                        if (t, k) not in PAIRS:
                            ck.bad("%s %s decoded from %s" % (what, k, t), "an object of type %s can be decoded as a %s" % (
                                t, "directory" if k == "Dir" else "file"), fn.span)

            e = an.engine(Mon(on_fact=on_fact, on_ret=on_ret))
            ck.absorb(e, e.run(fn.id))
            n.hit("decoders", fn.id)
    # decoding by hand, around the checks
    allowed = {f.id for w in ("Commit", "FSItem") for f in an.decoders(w)}
    cg = an.p.callgraph()
    callers = {}
    for f in an.p.fns.values():
        for x in cg.get(f.id, ((), ()))[1]:
            callers.setdefault(x, set()).add(f.id)
    grown = True
    while grown:
        grown = False
        for f in an.p.fns.values():
            if f.id not in allowed and callers.get(f.id) and callers[f.id] <= allowed and not f.d.get("trait"):
                allowed.add(f.id)
                grown = True
    rx = re.compile(r"snapcd::(dir::FSItem|commit::Commit|commit::CommitAttrs)\b|^(dir::FSItem|commit::Commit(Attrs)?)\b")
    for f in an.p.fns.values():
        if f.derived or not f.blocks or "_IMPL_" in f.id:
            continue
        for callee, local, span in cg[f.id][0]:
            if callee is None or not DECODE.search(callee.name):
                continue
            n.hit("decoding calls", f.id, str(span))
            if any(rx.search(str(a)) for a in callee.args) and f.id not in allowed and f.id.split("::{closure")[0] not in allowed:
                ck.bad("%s decodes on its own" % f.short, "%s decodes %s without the check of the object's type" % (
                    f.pretty(), ", ".join(str(a) for a in callee.args if rx.search(str(a)))), span)
    n.into(ck)


# ------------------------------------------------------------------- C19
def fields_of(an, adt):
    return [f[0] for f in an.adts[adt]["v"][0][1]]


def whole(an, eng, v, base, adt):
    """Is v the value `base` accepts, or one rebuilt from each of its fields?
    None if it is, else what is wrong."""
    for x in roots(eng, v):
        if base(eng, x):
            continue
        y, over = x, {}
        if y[0] == "ov":
            over = dict(y[2])
            y = y[1]
        names = fields_of(an, adt)
        if y[0] == "agg" and y[1] == adt or (over and base(eng, y)):
            for i, nm in enumerate(names):
                if nm in CHILDREN.get(adt, ()):
                    continue
                if i in over:
                    z = over[i]
                elif y[0] == "agg":
                    z = y[3][i]
                else:
                    continue
                if not any(q[0] == "f" and q[2] == nm and any(base(eng, b) for b in roots(eng, q[1])) for q in roots(eng, z)):
                    return "its %s is %s" % (nm, eng.show(z))
            continue
        return "it is %s" % eng.show(x)
    return None


def listed_in_order(n, ck, fn, what, seqs, first=None, firstname=""):
    """Monitor pieces: every element of the sequence `seqs` names must be
    recorded in a list (pushed, extended or collected), in order, after `first`."""
    each = Each(n, ck, fn, what, seqs, "recorded")

    def rec(eng, st, v, at, pos=None, sid=None, held=()):
        isf = first is not None and any(first(eng, st, x) for x in roots(eng, v))
        if isf:
            if any(t[0] == "rec-first" and t[1] != sid for t in st.mon):
                ck.bad("%s recorded twice" % firstname, "%s can be recorded twice" % firstname, *at)
            if has(st, "rec-rest") and pos != 0:
                ck.bad("%s not first" % firstname, "%s is not recorded before %s" % (firstname, what), *at)
            if pos == 0:
                drop(st, lambda t: t[0] == "rec-early")
            add(st, "rec-first", sid)
            return True
        if each.used(eng, st, [v]):
            if pos == 0 or (first is not None and not any(t[0] == "rec-first" for t in st.mon) and not any(
                    first(eng, st, y) for h in held for y in eng.origins(h))):
                add(st, "rec-early")
            add(st, "rec-rest")
            return True
        hit = each.indexed(eng, st, [v])
        if hit:
            add(st, "rec-rest")
        return hit
    return each, rec


def dtor(ev):
    return (ev.span, ())


def encoder(an, ck, n, fn, what):
    self_ = param(fn, 0)
    K = an.field(OBJECT, "keys")
    D = an.field(OBJECT, "data")
    OT = an.field(OBJECT, "objtype")
    adt = ATTRS if what == "Commit" else FSITEM
    body = mk("f", self_, "attrs") if what == "Commit" else self_
    listf = "parents" if what == "Commit" else "children"
    kd = Variants(an, ITEMTYPE, lambda eng, v: any(x == mk("f", self_, "itemtype") for x in strip(eng, v)), "kind")

    def seqs(eng, v):
        for x in roots(eng, v, mut=False):
            if x == mk("f", self_, listf):
                return listf
            if x[0] == "r" and name_of(eng, x) == "collect" or x[0] == "r" and re.search(r"::(collect|to_vec|to_owned|clone)$", name_of(eng, x)):
                for a in call_args(eng, x):
                    if a and any(y == mk("f", self_, listf) for y in roots(eng, a[0])):
                        return listf
        return None
    isfirst = (lambda eng, st, x: x == mk("f", self_, "tree")) if what == "Commit" else None
    each, rec = listed_in_order(n, ck, fn, "the %s" % listf, seqs, isfirst, "the tree")
    tname = "parents" if what == "Commit" else "children"

    def on_call(eng, st, ev):
        each.call(eng, st, ev)
        at = (ev.span, eng.chain(ev.ctx))
        if PUSH.match(ev.name) and len(ev.args) > 1 and not ev.name.endswith(("::extend", "extend_from_slice", "::append")):
            pos = None
            if ev.name.endswith("Vec::insert"):
                pos = ev.args[1][2] if ev.args[1][0] == "c" and ev.args[1][1] == "int" else -1
            v = ev.args[-1]
            if any(x == mk("f", self_, "tree") or seqs(eng, x) or any(q[0] in ("it",) for q in (x,)) for x in eng.origins(v)) or pos is not None:
                n.hit("keys recorded by encoders", ev)
                r = rec(eng, st, v, at, pos, ev.sid, ev.args[:1])
                if pos not in (None,) and r and not any(x == mk("f", self_, "tree") for x in roots(eng, v)):
                    ck.bad("%s inserted at a position" % tname, "the %s are inserted at a fixed position and lose their order" % tname, *at)

    def kept(eng, st, site, v):
        if any(x == mk("f", self_, "tree") or seqs(eng, x) for x in eng.origins(v)) or each.pending(st):
            n.hit("keys recorded by encoders", site.sid)
            rec(eng, st, v, (site.span, ()), None, site.sid, [a[0] for a in site.args if len(a) > 1])

    def on_fact(eng, st, v, val, eq):
        kd.fact(eng, st, v, val, eq)
        each.fact(eng, st, v, val, eq)

    def on_ret(eng, st, f, ctx, v):
        if not outermost(eng, ctx):
            return
        p = okval(v)
        if p is None:
            return
        if p is False:
            ck.bad("%s encoder result" % what, "the encoder of %s does not return an object it built" % what, fn.span)
            return
        n.hit("successful returns of encoders", fn.id)
        each.ret(eng, st, f, v)
        keys, data, ot = (eng.proj(p, ("f", i, nm)) for i, nm in ((K, "keys"), (D, "data"), (OT, "objtype")))
        o = eng.origins(keys)
        # the list of keys
        direct = seqs(eng, keys) is not None and what != "Commit"
        if not direct and not has(st, "ended", listf) and not any(t[0] == "empty" for t in st.mon):
            whole_ext = any(x == mk("f", self_, listf) for x in o)
            if not whole_ext:
                ck.bad("%s not recorded" % tname, "the encoder of %s can succeed without recording the %s" % (what, tname), fn.span)
        if what == "Commit":
            if mk("f", self_, "tree") not in o:
                ck.bad("tree not recorded", "the encoder of Commit can succeed without recording the tree", fn.span)
            elif has(st, "rec-early"):
                ck.bad("the tree not first", "the tree is not the first key that is recorded", fn.span)
        # what is serialised
        for x, through in sources(eng, data, ENCODE):
            w = whole(an, eng, x, lambda e2, z: z == body, adt) if through else "it is not serialised"
            n.hit("values serialised by encoders", fn.id, x)
            if w:
                ck.bad("%s data" % what, "the encoder of %s does not serialise all of the value: %s" % (what, w), fn.span)
        ots = [x for x in strip(eng, ot)]
        names = [q[0] for q in an.adts[OBJTYPE]["v"]]
        got = {names[x[2]] if x[0] == "agg" and x[1] == OBJTYPE else "?" for x in ots}
        n.hit("types recorded by encoders", fn.id, tuple(sorted(got)))
        if what == "Commit":
            want = {"Commit"}
        else:
            ks = kd.possible(st)
            want = {t for t, k in PAIRS if k in ks}
        if len(got) == 1 and len(want) != 1 or not got <= want:
            ck.bad("%s type" % what, "the encoder of %s records the type %s where it should be %s" % (what, "/".join(sorted(got)), "/".join(sorted(want))), fn.span)

    m = Mon(on_call=on_call, on_ret=on_ret, on_fact=on_fact, on_item=each.item, on_end=each.end)
    m.kept = kept
    e = an.engine(m)
    ck.absorb(e, e.run(fn.id))


def decoder(an, ck, n, fn, what):
    self_ = param(fn, 0)
    okeys, odata = mk("f", self_, "keys"), mk("f", self_, "data")

    def decoded(eng, v):
        """Is v what was decoded from the data of the object?"""
        src = sources(eng, v, DECODE)
        return bool(src) and all(t and z == odata for z, t in src)

    def base(eng, v):
        xs = roots(eng, v)
        return bool(xs) and all(x[0] in ("r", "o") and DECODE.search(name_of(eng, x)) and decoded(eng, x) for x in xs)

    def first_of(eng, v):
        """The value is the first key of the object."""
        for c, i in elem(eng, v):
            if i is not None and i[0] == "c" and i[2:3] == (0,) and seqs(eng, c) == "all":
                return True
        if v[0] in ("r", "o"):
            nm = name_of(eng, v)
            if re.search(r"^std::(vec::Vec|collections::(vec_deque::)?VecDeque)::(remove|swap_remove)$", nm):
                return any(len(a) > 1 and seqs(eng, a[0]) == "all" and a[1][0] == "c" and a[1][2:3] == (0,) for a in call_args(eng, v))
            if re.search(r"VecDeque::pop_front$", nm):
                return any(seqs(eng, a[0]) == "all" for a in call_args(eng, v))
        if v[0] == "f" and v[2] in ("0", 0):
            for x in roots(eng, v[1]):
                if x[0] in ("r", "o") and name_of(eng, x) == "std::slice::split_first":
                    return any(seqs(eng, a[0]) == "all" for a in call_args(eng, x))
        return False

    def seqs(eng, v, d=0):
        """"all" for the keys of the object, "rest" for those after the first."""
        if d > 12:
            return None
        if v is REST:
            return "rest"
        for x in strip(eng, v):
            x = next(iter(roots(eng, x))) if len(roots(eng, x)) == 1 else x
            if x == okeys:
                return "all"
            if x[0] == "mut":
                ns = {eng.sites[s].name for s in eng.muts[x]}
                b = seqs(eng, x[1], d + 1)
                if b is None:
                    return None
                if ns and all(re.search(r"::(remove|pop_front)$", q) for q in ns) and b == "all":
                    one = all(len(a) < 2 or a[1][0] == "c" and a[1][2:3] == (0,) for s in eng.muts[x] for a in eng.sites[s].args)
                    return "rest" if one else "cut"
                return "rest" if b == "rest" and all(re.search(r"::(iter_mut|as_mut_slice|reserve|shrink_to_fit)$", q) for q in ns) else "cut"
            if x[0] in ("r", "o"):
                nm = name_of(eng, x)
                for a in call_args(eng, x):
                    if not a:
                        continue
                    b = seqs(eng, a[0], d + 1)
                    if b is None:
                        continue
                    if nm in ("Index::index", "IndexMut::index_mut", "std::slice::get") and len(a) > 1:
                        i = a[1]
                        if i[0] == "agg" and i[1].endswith("RangeFrom") and i[3][0][0] == "c":
                            if i[3][0][2] == 1 and b == "all":
                                return "rest"
                            if i[3][0][2] == 0:
                                return b
                        if i[0] == "agg":
                            return "cut"
                        return None
                    if nm.endswith(("Vec::split_off", "Vec::drain")) and b == "all" and len(a) > 1:
                        i = a[1][3][0] if a[1][0] == "agg" and a[1][1].endswith("RangeFrom") else a[1]
                        if i[0] == "c" and i[1] == "int":
                            return "rest" if i[2] == 1 else "cut"
                    if re.search(r"::(collect|clone|to_vec|into_vec|from|into|iter|into_iter|as_slice)$|^collect$", nm):
                        return b
            if x[0] == "f" and x[2] in ("1", 1):
                for y in roots(eng, x[1]):
                    if y[0] in ("r", "o") and name_of(eng, y) == "std::slice::split_first":
                        for a in call_args(eng, y):
                            if seqs(eng, a[0], d + 1) == "all":
                                return "rest"
            if x[0] == "it":
                if x[1] == "skip":
                    b = seqs(eng, x[2][0], d + 1)
                    k = x[2][1] if len(x[2]) > 1 else None
                    if b == "all" and k is not None and k[0] == "c":
                        return "rest" if k[2] == 1 else ("all" if k[2] == 0 else "cut")
                elif x[1] in ("src", "copied", "cloned"):
                    b = seqs(eng, x[2][0], d + 1)
                    if b:
                        return b
        return None
    listf = "parents" if what == "Commit" else "children"
    each = Each(n, ck, fn, "the recorded keys", seqs, "handed on")
    # skip(1) leaves out exactly the tree
    each.allowed = lambda eng, st, ev, k: what == "Commit" and (
        (re.search(r"(^|::)skip$", ev.name) and k == "all" and len(ev.args) > 1 and ev.args[1][0] == "c" and ev.args[1][2:3] == (1,)) or
        re.search(r"Vec::(remove|drain|split_off)$|pop_front$|split_first$", ev.name) and k == "all" or
        re.search(r"Vec::swap_remove$", ev.name) is not None and False)

    def on_item(eng, st, ev, it, v):
        k = each.key(eng, it[2][0])
        if k == "all" and has(st, "skip1"):
            each.item(eng, st, ev, mk("it", "src", (REST,), None), v)
            return
        if k == "all" and what == "Commit":
            if not any(t[0] == "took" for t in st.mon):
                add(st, "took")
                add(st, "first", v)
                return
            if not has(st, "skipped-tree"):
                # the rest follows once the first was taken
                add(st, "skipped-tree")
        each.item(eng, st, ev, it, v)

    def holder(eng, v):
        while v[0] in ("mut", "conv"):
            v = v[1]
        return v[1] if v[0] in ("r", "o") else v

    def on_end(eng, st, ev, it):
        if each.key(eng, it[2][0]) == "all" and has(st, "skip1"):
            it = mk("it", "src", (REST,), None)
        if each.key(eng, it[2][0]):
            # what was kept in between has been gone through itself
            hs = {holder(eng, x) for x in roots(eng, it[2][0])}
            drop(st, lambda t: t[0] == "rec" and t[2] in hs)
        each.end(eng, st, ev, it)

    def use(eng, st, v, c):
        pend = each.pending(st)
        if each.used(eng, st, [v]):
            for t in pend:
                if t not in st.mon:
                    add(st, "rec", t[1], holder(eng, c))
        else:
            each.indexed(eng, st, [v])

    def on_call(eng, st, ev):
        each.call(eng, st, ev)
        if re.search(r"(^|::)skip$", ev.name) and len(ev.args) > 1 and ev.args[1][0] == "c" and ev.args[1][2:3] == (1,) and what == "Commit" and any(
                x == okeys for x in eng.origins(ev.args[0])):
            add(st, "skip1")
        if PUSH.match(ev.name) and len(ev.args) > 1:
            if ev.name.endswith("Vec::insert") and any(each.key(eng, x) for x in eng.origins(ev.args[-1])):
                ck.bad("%s inserted" % listf, "the %s are inserted at a position and lose their order" % listf, ev.span, eng.chain(ev.ctx))
            use(eng, st, ev.args[-1], ev.args[0])

    def kept(eng, st, site, v):
        for t in list(st.mon):
            if t[0] == "first" and t[1] in eng.origins(v) and what == "Commit":
                add(st, "tree-in-list")
        use(eng, st, v, mk("r", site.sid))

    def on_ret(eng, st, f, ctx, v):
        if not outermost(eng, ctx):
            return
        p = okval(v)
        if p is None:
            return
        if p is False:
            ck.bad("%s decoder result" % what, "the decoder of %s does not return a value it built" % what, fn.span)
            return
        n.hit("successful returns of decoders", fn.id)
        each.ret(eng, st, f, v)
        if what == "Commit":
            tree, parents, attrs = (eng.proj(p, ("f", an.field(COMMIT, q), q)) for q in ("tree", "parents", "attrs"))
            for x in roots(eng, tree):
                if not (first_of(eng, x) or any(t[0] == "first" and (t[1] == x or t[1] in roots(eng, x)) for t in st.mon)):
                    ck.bad("tree decoded", "the tree of a decoded commit is %s, not the first recorded key" % eng.show(x), fn.span)
            lst = parents
            w = whole(an, eng, attrs, base, ATTRS)
        else:
            lst = eng.proj(p, ("f", an.field(FSITEM, "children"), "children"))
            w = whole(an, eng, p, base, FSITEM)
        if w:
            ck.bad("%s attributes decoded" % what, "the attributes of a decoded %s are not all those that were recorded: %s" % (what, w), fn.span)
        want = "rest" if what == "Commit" else "all"
        k = seqs(eng, lst)
        at = lst
        while at[0] == "mut":
            at = at[1]
        # the field serde leaves empty, extended with the keys
        if what == "FSItem" and at[0] == "f" and at[2] == "children" and base(eng, at[1]):
            hs = {at}
            recs = {t[1] for t in st.mon if t[0] == "rec" and t[2] == at}
            k = want if has(st, "ended", want) and lst != at else None
        elif k is None:
            hs = {holder(eng, x) for x in roots(eng, lst)}
            recs = {t[1] for t in st.mon if t[0] == "rec" and t[2] in hs}
            k = want if want in {t[1] for t in st.mon if t[0] == "ended"} else None
            if what == "Commit" and has(st, "took") and not has(st, "tree-in-list") and has(st, "ended", "all"):
                k, recs = "rest", {"rest" if t == "all" else t for t in recs}
            if recs - {want} or any(t[0] == "rec" and t[2] not in hs for t in st.mon) and not recs:
                k = None
        if k != want:
            ck.bad("%s decoded" % listf, "the %s of a decoded %s are %s, not %s" % (
                listf, what, eng.show(lst), "the recorded keys after the first" if want == "rest" else "all recorded keys"), fn.span)
        n.hit("parts of decoded values traced", fn.id, what)

    def on_result(eng, st, ev, v):
        if UNORDERED.match((ev.dty or {}).get("s", "")) and any(seqs(eng, y) for a in ev.args for y in eng.origins(a)):
            ck.bad("%s in a set" % listf, "the %s lose their order or repetitions" % listf, ev.span, eng.chain(ev.ctx))

    m = Mon(on_call=on_call, on_ret=on_ret, on_fact=each.fact, on_item=on_item, on_end=on_end, on_result=on_result)
    m.kept = kept
    e = an.engine(m)
    ck.absorb(e, e.run(fn.id))


def serde_tables(an, ck, n):
    """The derive-generated code: each field is written under a name that is
    read back into the same field, and none is left out."""
    skip = {FSITEM: {"children"}}
    info = {}              # type -> what its names are (for C35)
    for adt in (FSITEM, ITEMTYPE, ATTRS, OBJECT, OBJTYPE, "snapcd::key::Key"):
        nm = adt.split("::")[-1]
        if adt not in an.adts:
            raise CheckError("type %s not found" % adt)
        enum = an.adts[adt]["enum"]
        mod = "::".join(adt.split("::")[:2])
        sers = [f for f in an.p.fns.values() if f.id.startswith(mod) and f.d.get("method", f.id.split("::")[-1]) == "serialize" and f.blocks
                and re.search(r"(^|::)Serialize$", f.d.get("trait", "")) and f.d.get("self", {}).get("s", "").split("<")[0].split("::")[-1] == nm]
        if len(sers) != 1:
            raise CheckError("serialisation of %s not found (%d candidates)" % (nm, len(sers)))
        ser = sers[0]
        pre = [f.id for f in an.p.fns.values() if f.blocks and f.id.startswith(mod) and re.search(r"(^|::)Deserialize$", f.d.get("trait", ""))
               and f.d.get("self", {}).get("s", "").split("<")[0].split("::")[-1] == nm and f.id.endswith("::deserialize")]
        if len(pre) != 1:
            raise CheckError("deserialisation of %s not found (%d candidates)" % (nm, len(pre)))
        sub = {}
        for f in an.p.fns.values():
            if f.id.startswith(pre[0] + "::") and f.blocks:
                sub.setdefault(f.id.split("::")[-1], []).append(f)
        written = {}           # field or variant -> {name}
        always = {}            # fields serialised on every successful path
        forms = {}             # name -> type of what is written under it
        self_ = param(ser, 0)

        def on_call(eng, st, ev):
            if ev.tm and ev.tm[0].startswith("Serialize") and len(ev.args) > 1:
                if ev.tm[1] in ("serialize_field", "skip_field"):
                    key = text(ev.args[1])
                    if ev.tm[1] == "skip_field":
                        return
                    if enum:           # the fields of a variant
                        add(st, "other")
                        return
                    fs = {x[2] for x in strip(eng, ev.args[2]) if x[0] == "f" and x[1] == self_}
                    if len(fs) != 1:
                        o = {x[2] for x in eng.origins(ev.args[2]) if x[0] == "f" and x[1] == self_}
                        # serialize_with and the like hand on a wrapper around the field
                        if len(o) == 1 and all(x[0] in ("agg", "f", "p", "conv") for x in eng.origins(ev.args[2]) if x[0] != "c"):
                            fs = o
                        else:
                            ck.bad("%s written as %s" % (key, nm), "%s of %s is written from %s" % (key, nm, eng.show(ev.args[2])), ev.span)
                    for x in fs:
                        written.setdefault(x, set()).add(key)
                        add(st, "wrote", x)
                        n.hit("fields serialised", adt, x)
                    forms.setdefault(key, set()).add(ev.argtys[2]["s"])
                elif ev.tm[1] in ("serialize_unit_variant", "serialize_newtype_variant"):
                    if ev.tm[1] == "serialize_newtype_variant":
                        forms.setdefault(text(ev.args[3]), set()).add(ev.argtys[4]["s"])
                    written.setdefault(tuple(sorted(kd.possible(st))), set()).add(text(ev.args[3]))
                    add(st, "wrote", text(ev.args[3]))
                    n.hit("variants serialised", adt, text(ev.args[3]))
                    if ev.tm[1] == "serialize_newtype_variant" and self_ not in {y for x in strip(eng, ev.args[4]) for y in eng.origins(x)}:
                        ck.bad("%s contents" % nm, "what is written for %s is %s, not its contents" % (nm, eng.show(ev.args[4])), ev.span)
                elif ev.tm[1].startswith("serialize_") and ev.tm[1] not in ("serialize_struct", "serialize_element", "serialize_newtype_struct"):
                    forms.setdefault("*", set()).add(ev.tm[1])
                    add(st, "other")

        kd = Variants(an, adt, lambda eng, v: self_ in strip(eng, v), "kind") if enum else None

        def on_ret(eng, st, f, ctx, v):
            if not outermost(eng, ctx) or (v[0] == "agg" and v[1] == RESULT and v[2] == 1):
                return
            got = {t[1] for t in st.mon if t[0] == "wrote"}
            always["*"] = always["*"] & got if "*" in always else got
            if has(st, "other"):
                always["?"] = True
        e = an.engine(Mon(on_call=on_call, on_ret=on_ret, on_fact=kd.fact if kd else None))
        ck.absorb(e, e.run(ser.id))
        if not written:
            # written by hand in another form: nothing to compare field by field
            ck.notes.append("%s is not serialised as a structure" % nm)
            info[adt] = dict(reads={}, lands={}, dflt={}, forms=forms, written={}, skip=set(), enum=enum, at=ser.span)
            continue
        # names -> fields of the deserialiser
        reads = {}

        def names_ret(eng, st, f, ctx, v):
            if not outermost(eng, ctx):
                return
            p = okval(v)
            if p is None or p is False or p[0] != "agg":
                return
            for t in st.mon:
                if t[0] == "is":
                    reads.setdefault(t[1], set()).add(p[2])

        def names_fact(eng, st, v, val, eq):
            if v[0] == "bin" and v[1] == "Eq" and (val == 1) == eq:
                for a in (v[2], v[3]):
                    for x in strip(eng, a):
                        if x[0] == "c" and x[1] == "bytes":
                            add(st, "is", text(x))
        for f in sub.get("visit_str", ()):
            e = an.engine(Mon(on_fact=names_fact, on_ret=names_ret))
            ck.absorb(e, e.run(f.id))
        # fields of the deserialiser -> fields or variants of the type
        lands = {}
        dflt = {}
        for f in list(sub.get("visit_map", ())) + list(sub.get("visit_enum", ())):
            def on_result(eng, st, ev, v):
                if ev.tm and ev.tm[1] in ("next_value", "unit_variant", "newtype_variant"):
                    cur = [t[1] for t in st.mon if t[0] == "at"]
                    s2 = st.copy()
                    for c in cur:
                        add(s2, "val", v, c)
                    return [(s2, v)]
                return None

            def on_fact(eng, st, v, val, eq):
                if v[0] == "discr" and eq:
                    t = eng.origins(v[1])
                    for x in t:
                        if x[0] in ("r", "o") and name_of(eng, x) in ("MapAccess::next_key", "EnumAccess::variant"):
                            if v[1][0] == "v" and v[1] != mk("v", x, 0, 0) or v[1][0] == "f":
                                drop(st, lambda q: q[0] == "at")
                                add(st, "at", val)

            def on_ret(eng, st, g, ctx, v):
                if not outermost(eng, ctx):
                    return
                p = okval(v)
                if p is None or p is False or p[0] != "agg" or p[1] != adt:
                    return
                if enum:
                    for t in list(st.mon) + ([("at", 0)] if len(an.adts[adt]["v"]) == 1 else []):
                        if t[0] == "at":
                            lands.setdefault(t[1], set()).add(an.adts[adt]["v"][p[2]][0])
                            n.hit("variants read back", adt, an.adts[adt]["v"][p[2]][0])
                    return
                for i, x in enumerate(p[3]):
                    o = eng.origins(x)
                    c = {t[2] for t in st.mon if t[0] == "val" and t[1] in o}
                    for k in c:
                        lands.setdefault(k, set()).add(fields_of(an, adt)[i])
                        n.hit("fields read back", adt, fields_of(an, adt)[i])
                    if not c and not any(name_of(eng, q).endswith("missing_field") for q in o if q[0] in ("r", "o")):
                        dflt.setdefault(fields_of(an, adt)[i], True)
            e = an.engine(Mon(on_result=on_result, on_fact=on_fact, on_ret=on_ret))
            ck.absorb(e, e.run(f.id))
        info[adt] = dict(reads=reads, lands=lands, dflt=dflt, forms=forms, written=written, skip=skip.get(adt, set()), enum=enum, at=ser.span)
        # compare
        todo = [v[0] for v in an.adts[adt]["v"]] if enum else [f for f in fields_of(an, adt) if f not in skip.get(adt, ())]
        wr = {}
        for k, vs in written.items():
            if enum:
                if len(k) == 1:
                    wr.setdefault(k[0], set()).update(vs)
                else:
                    for q in k:
                        wr.setdefault(q, set()).update(vs)
            else:
                wr.setdefault(k, set()).update(vs)
        for x in todo:
            what = "variant" if enum else "field"
            if x not in wr:
                if always.get("?"):
                    continue
                ck.bad("%s.%s not written" % (nm, x), "the %s %s of %s is not written" % (what, x, nm), ser.span)
                continue
            if not enum and x not in always.get("*", ()) and x not in dflt:
                ck.bad("%s.%s not always written" % (nm, x), "the field %s of %s is not always written, and reading it back then fails" % (x, nm), ser.span)
            for key in wr[x]:
                n.hit("names compared", adt, key)
                got = {y for i in reads.get(key, ()) for y in lands.get(i, ())}
                if got != {x}:
                    ck.bad("%s.%s read back" % (nm, x), "the %s %s of %s is written as '%s', which is read back as %s" % (
                        what, x, nm, key, "/".join(sorted(got)) or "nothing"), ser.span)
    # nothing on the way may lose information
    ids = [f.id for f in an.p.fns.values() if ("_IMPL_SERIALIZE" in f.id or "_IMPL_DESERIALIZE" in f.id or re.search(r"(^|::)(De)?[sS]erialize$", f.d.get("trait", ""))) and f.blocks and f.id.startswith("snapcd::")]
    ids += [f.id for w in ("Commit", "FSItem") for f in an.decoders(w) + an.encoders(w)]
    cg = an.p.callgraph()
    for i in sorted(set(ids) | set(an.p.reachable(ids))):
        if i not in cg or "_IMPL_" in i and i.endswith("::visit_bytes"):
            continue
        for callee, local, span in cg[i][0]:
            if callee is None:
                continue
            n.hit("calls of the encoding checked", i, str(span))
            if re.search(r"::(to_string_lossy|from_utf8_lossy|to_ascii_lowercase|to_lowercase|to_uppercase|display)$", callee.name):
                ck.bad("%s in %s" % (last(callee.name), an.p.fn(i).short), "%s does not keep every value apart (%s)" % (callee.name, an.p.fn(i).pretty()), span)
    return info


def text(v):
    while v[0] == "conv":
        v = v[1]
    if v[0] == "c" and v[1] == "bytes":
        try:
            return bytes.fromhex(v[2]).decode()
        except Exception:
            return v[2]
    return "?"


def C19(an, ck):
    n = Seen()
    for what in ("Commit", "FSItem"):
        for fn in an.encoders(what):
            encoder(an, ck, n, fn, what)
        for fn in an.decoders(what):
            decoder(an, ck, n, fn, what)
    serde_tables(an, ck, n)
    n.into(ck)
