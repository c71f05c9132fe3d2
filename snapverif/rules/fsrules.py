"""C08-C12: what happens to files and directories."""
from .prov import *

DESTROY = re.compile(
    r"^std::fs::(remove_file|remove_dir|remove_dir_all|rename|copy|write|set_permissions|set_times\w*)$|"
    r"^std::fs::File::(create|create_buffered|set_len|set_permissions|set_times|set_modified)$|"
    r"^std::os::unix::fs::(chown|lchown|fchown|chroot)$|^std::(os::unix::)?fs::FileExt::write\w*|^FileExt::write\w*|"
    r"^std::process::Command::(spawn|output|status|exec)$|^CommandExt::exec$")
CREATE = re.compile(
    r"^std::fs::(create_dir|create_dir_all|hard_link|soft_link)$|^std::fs::DirBuilder::create$|^std::fs::File::create_new$|"
    r"^std::os::unix::fs::(symlink|mkfifo)$|^std::os::unix::net::UnixListener::bind$|^std::env::set_current_dir$")
OPTS = re.compile(r"^std::fs::OpenOptions::(write|append|truncate|create|create_new)$")
OPEN = re.compile(r"^std::fs::OpenOptions::open$")
PATHY = re.compile(r"Path|OsStr|str\b|DirEntry")
JOIN = re.compile(r"^std::path::(Path|PathBuf)::(join|push|with_file_name|set_file_name|with_extension|set_extension)$")


def flow(eng, v, stop=None):
    """Where the content of a value comes from; set operations give elements of
    their first operand."""
    seen, work = set(), [v]
    while work:
        x = work.pop()
        if type(x) is not T:
            if type(x) in (tuple, frozenset):
                work.extend(x)
            continue
        if x in seen:
            continue
        seen.add(x)
        if stop and stop(x):
            continue
        k = x[0]
        if k == "it" and x[1] in ("filter", "take_while", "skip_while", "inspect"):
            work.extend(x[2][:1])
        elif k in ("r", "o"):
            first = re.search(r"::(difference|intersection|retain)$", name_of(eng, x))
            for a in call_args(eng, x):
                work.extend(a[:1] if first else a)
        elif k == "mut":
            work.append(x[1])
            for sid in eng.muts[x]:
                if not re.search(r"::(retain|remove|sort\w*)$", eng.sites[sid].name):
                    for a in eng.sites[sid].args:
                        work.extend(a)
        else:
            work.extend(y for y in x[1:] if type(y) is T or type(y) in (tuple, frozenset))
    return seen


def fieldname(v):
    return v[2] if v[0] == "f" else None


def isnames(eng, x):
    """The recorded names of a decoded directory."""
    return x[0] == "f" and x[2] == "children_names" and not any(y[0] == "p" for y in [x[1]])


class Kinds:
    """Which kinds of item (directory, file) are still possible on a path."""

    def __init__(self, an):
        self.it = [v[0] for v in an.adts["snapcd::dir::FSItemType"]["v"]] if "snapcd::dir::FSItemType" in an.adts else None
        if self.it is None:
            raise CheckError("type snapcd::dir::FSItemType not found")
        self.ot = [v[0] for v in an.adts["snapcd::object::ObjType"]["v"]]

    def fact(self, eng, st, v, val, eq):
        if v[0] != "discr":
            return
        for x in strip(eng, v[1]):
            if fieldname(x) == "itemtype":
                adt, names = "snapcd::dir::FSItemType", self.it
            elif fieldname(x) == "objtype":
                adt, names = "snapcd::object::ObjType", [{"FSItemDir": "Dir", "FSItemFile": "File"}.get(n, n) for n in self.ot]
            else:
                continue
            i = eng.variant_of(adt, val)
            if i is None or i >= len(names):
                continue
            cur = self.possible(st)
            cur = cur & {names[i]} if eq else cur - {names[i]}
            drop(st, lambda t: t[0] == "kind")
            add(st, "kind", frozenset(cur))

    def possible(self, st):
        for t in st.mon:
            if t[0] == "kind":
                return t[1]
        return frozenset(self.it)


def cuts(an):
    return [an.ds("get_obj"), an.fn("snapcd::file::read_data"), an.fn("snapcd::file::put_data"), an.ds("canonicalize"), an.ds("put_obj"),
            an.fn("snapcd::filter::make_filter_fn")] + an.decoders("FSItem") + an.encoders("FSItem")


class Opens:
    """What the options a file is opened with amount to."""

    def __init__(self):
        self.table = {}

    def call(self, eng, st, ev):
        if OPTS.match(ev.name):
            val = ev.args[1] if len(ev.args) > 1 else UNK
            drop(st, lambda t: t[0] == "opt" and t[1] == ev.sid)
            add(st, "opt", ev.sid, last(ev.name), 1 if val is TRUE else 0 if val is FALSE else None)

    def flags(self, eng, st, ev):
        """{option: value} for the options an open call is given on this path."""
        s = set()
        for x in eng.origins(ev.args[0]):
            if x[0] in ("r", "o"):
                s.add(x[1])
            elif x[0] == "mut":
                s |= eng.muts[x]
        fl = {}
        for t in st.mon:
            if t[0] == "opt" and t[1] in s:
                fl[t[2]] = t[3] if t[2] not in fl or fl[t[2]] == t[3] else None
        return fl

    def effect(self, eng, st, ev):
        """'read', 'new' or 'destroy'"""
        if OPEN.match(ev.name):
            fl = self.flags(eng, st, ev)
            if fl.get("create_new", 0) == 1:
                return "new"
            if all(v == 0 for v in fl.values()):
                return "read"
            return "destroy"
        if DESTROY.match(ev.name):
            return "destroy"
        if CREATE.match(ev.name):
            return "new" if ev.name.endswith("create_new") else "create"
        return None


def calls_in(an, ids):
    cg = an.p.callgraph()
    for fid in sorted(ids):
        if fid in cg:
            for c, g, sp in cg[fid][0]:
                yield an.p.fn(fid), c, g, sp


def pathargs(ev):
    """The path arguments of a file-system call."""
    if OPEN.match(ev.name) or ev.name.endswith("DirBuilder::create"):
        return [ev.args[1]]
    if ev.name in ("std::fs::rename", "std::fs::copy", "std::fs::hard_link", "std::fs::soft_link", "std::os::unix::fs::symlink"):
        return list(ev.args[:2])
    return list(ev.args[:1])


# ---------------------------------------------------------------------- C08
def C08(an, ck):
    n = Seen()
    fetch = an.handler("Fetch")
    get = an.fn("snapcd::dir::get_fs_item")
    kinds = Kinds(an)
    path = param(get, 2)

    def run(root, item):
        ops = Opens()

        def on_call(eng, st, ev):
            ops.call(eng, st, ev)
            e = ops.effect(eng, st, ev)
            if e:
                n.hit("calls that create, change or remove files", ev)
                at = (ev.span, eng.chain(ev.ctx))
                if e == "destroy":
                    ck.bad("%s in %s" % (last(ev.name), ev.fn.short), "fetching can change or remove an existing file: %s%s" % (
                        ev.name, " without create_new(true)" if OPEN.match(ev.name) else ""), *at)
                elif ev.name in ("std::fs::hard_link", "std::fs::soft_link", "std::os::unix::fs::symlink"):
                    ck.bad("%s in %s" % (last(ev.name), ev.fn.short), "fetching creates a link", *at)

        def on_result(eng, st, ev, v):
            if ops.effect(eng, st, ev) == "new" and is_result(ev.dty):
                out = []
                for s2, v2, good in fork(eng, st, v):
                    add(s2, "created" if good else "failed")
                    out.append((s2, v2))
                return out
            return None

        def on_ret(eng, st, f, ctx, v):
            if outermost(eng, ctx) and okval(v) is not None and item:
                n.hit("successful ends of get_fs_item", repr(v), kinds.possible(st))
                if has(st, "failed"):
                    ck.bad("existing file ignored", "fetching can succeed although a file could not be created", f.span)
                elif "File" in kinds.possible(st) and not has(st, "created"):
                    ck.bad("file not created", "fetching a file can succeed without having created it (an existing file would go unnoticed)", f.span)

        e = an.engine(Mon(cut=cuts(an), on_call=on_call, on_result=on_result, on_ret=on_ret, on_fact=kinds.fact))
        o = e.run(root.id)
        ck.absorb(e, o)
        return e
    seen = set()
    seen |= run(get, True).visited_fns
    seen |= run(fetch, False).visited_fns
    reach = an.p.reachable([fetch.id])
    for f, c, g, sp in calls_in(an, reach):
        n.hit("calls below fetch", f.id, sp, c.name)
        if DESTROY.match(c.name):
            ck.bad("%s in %s" % (last(c.name), f.short), "fetching can change or remove an existing file: %s is reachable" % c.name, sp, [fetch.short, f.short])
        elif OPEN.match(c.name) and f.id not in seen and f.blocks:
            run(f, False)
    n.into(ck)


# ---------------------------------------------------------------------- C09
NORMAL = 4          # std::path::Component::Normal


def C09(an, ck):
    n = Seen()
    dec = an.decoders("FSItem")
    for fn in (an.fn("snapcd::dir::get_fs_item"), an.fn("snapcd::dir::checkout_fs_item")):
        ops = Opens()
        path = param(fn, 2)

        def names_in(eng, v, stop=None):
            """The recorded names a value is made of."""
            return [x for x in flow(eng, v, stop) if isnames(eng, x)]

        def recorded(eng, v):
            """Terms of single recorded names in v: elements of children_names."""
            out = set()
            for x in flow(eng, v):
                if x[0] in ("r", "o") and name_of(eng, x) == "next" and any(isnames(eng, y) for a in call_args(eng, x) for b in a for y in strip(eng, b)):
                    out.add(x)
                for c, i in elem(eng, x):
                    if any(isnames(eng, y) for y in strip(eng, c)):
                        out.add(x)
            return out

        def ncall(eng, st, ev):
            ops.call(eng, st, ev)
            at = (ev.span, eng.chain(ev.ctx))
            if JOIN.match(ev.name) and len(ev.args) > 1:
                rec = names_in(eng, ev.args[1])
                if rec:
                    n.hit("joins with a recorded name", ev)
                    r = recorded(eng, ev.args[1])
                    good = bool(r) and all(has(st, "normal", x) and has(st, "single", x) or has(st, "fileonly", x) for x in r)
                    if not good:
                        ck.bad("%s in %s of %s" % (last(ev.name), ev.fn.short, fn.short),
                               "%s uses a recorded name in a path without having checked that it is one plain path component" % fn.pretty(), *at)
            e = ops.effect(eng, st, ev)
            rec = ev.local is not None and any(ev.local.id == x[0] for x in eng.stack)
            if e in ("destroy", "new", "create") or rec:
                if rec:
                    ps = [a for a, t in zip(ev.args, ev.argtys) if re.search(r"\bPath(Buf)?\b", t["s"])]
                else:
                    ps = pathargs(ev)
                for a in ps:
                    n.hit("paths created, written, removed or handed on", ev)
                    o = flow(eng, a)
                    if path not in o:
                        ck.bad("%s outside in %s" % (last(ev.name), fn.short), "%s uses the path %s, which is not below the destination" % (fn.pretty(), eng.show(a)), *at)
                    def stop(x):
                        return (x[0] in ("r", "o") and JOIN.match(name_of(eng, x)) is not None) or (
                            x[0] == "mut" and any(JOIN.match(eng.sites[i].name) for i in eng.muts[x]))
                    if names_in(eng, a, stop):
                        ck.bad("%s of a recorded name in %s" % (last(ev.name), fn.short), "%s uses a recorded name as a path: %s" % (fn.pretty(), eng.show(a)), *at)
                    for x in o:
                        if x[0] in ("r", "o") and re.search(r"^std::path::Path::parent$|^std::fs::canonicalize$|^std::fs::read_link$", name_of(eng, x)) and (
                                e != "create"):
                            ck.bad("%s in a path of %s" % (last(name_of(eng, x)), fn.short), "%s leaves the destination: %s" % (fn.pretty(), eng.show(a)), *at)

        def compbase(eng, base):
            """The recorded names whose components these are, with the place they are taken apart."""
            out = set()
            for x in strip(eng, base):
                if x[0] == "mut":
                    x = x[1]
                if x[0] in ("r", "o") and re.search(r"^std::path::Path::(components|iter)$", name_of(eng, x)):
                    for a in call_args(eng, x):
                        out |= {(nm, x[1]) for nm in recorded(eng, a[0])}
            return out

        def on_item(eng, st, ev, it, v):
            for nm in compbase(eng, it[2][0]):
                add(st, "comp2" if has(st, "comp1", nm) else "comp1", nm)
            for x in strip(eng, it[2][0]):
                if isnames(eng, x):
                    drop(st, lambda t: t[0] in ("comp1", "comp2", "single", "normal", "fileonly"))
                    n.hit("recorded names", ev)

        def on_end(eng, st, ev, it):
            for nm in compbase(eng, it[2][0]):
                if has(st, "comp1", nm) and not has(st, "comp2", nm):
                    add(st, "single", nm[0])

        def on_fact(eng, st, v, val, eq):
            if v[0] == "discr" and val == NORMAL and eq:
                for nm in recorded(eng, v[1]):
                    if any(re.search(r"Path::(components|iter)$", name_of(eng, x)) for x in eng.origins(v[1])):
                        add(st, "normal", nm)
            truth = (val == 1) == eq
            for x in strip(eng, v):
                # components().count() == 1
                if x[0] in ("r", "o") and name_of(eng, x) == "Iterator::count" and val == 1 and eq:
                    for nm in recorded(eng, x):
                        add(st, "single", nm)
                if x[0] == "bin" and x[1] in ("Eq", "Ne") and truth == (x[1] == "Eq"):
                    for a, b in ((x[2], x[3]), (x[3], x[2])):
                        if b[0] == "c" and b[1] == "int" and b[2] == 1 and any(name_of(eng, y).endswith("::count") for y in strip(eng, a)):
                            for nm in recorded(eng, a):
                                add(st, "single", nm)
                # name.file_name() == Some(name)
                eqs = x[0] in ("r", "o") and re.match(r"PartialEq::(eq|ne)$", name_of(eng, x))
                if (eqs and truth == (eqs.group(1) == "eq")) or (x[0] == "bin" and x[1] in ("Eq", "Ne") and truth == (x[1] == "Eq")):
                    sides = [y for a in call_args(eng, x) for y in a] if eqs else [x[2], x[3]]
                    fn_ = [any(name_of(eng, z) == "std::path::Path::file_name" for z in eng.origins(y)) for y in sides]
                    if any(fn_) and not all(fn_):
                        for nm in set.union(*[recorded(eng, y) for y in sides] or [set()]):
                            add(st, "fileonly", nm)

        m = Mon(cut=cuts(an), on_call=ncall, on_item=on_item, on_end=on_end, on_fact=on_fact)
        e = an.engine(m)
        o = e.run(fn.id)
        ck.absorb(e, o)
    if not n["paths created, written, removed or handed on"]:
        raise CheckError("no path is created, written or removed by fetching or checking out")
    n.into(ck)


# ---------------------------------------------------------- the filter
def filterparam(f):
    """The index of the exclusion filter among a function's parameters."""
    for i in range(f.argc):
        if re.search(r"Fn\w*\(.*DirEntry", f.locals[i + 1][0]["s"]):
            return i
    return None


def filtered_roots(an):
    return [f for f in an.local_roots() if "::{closure" not in f.id and filterparam(f) is not None]


def place(eng, sid):
    """A site's position, the same in every run."""
    s = eng.sites[sid]
    out, c = [s.name, s.bb, repr(s.tag)], s.ctx
    while c:
        c, bb, fid, ex = eng.ctxs[c]
        out.append((bb, fid))
    return tuple(out)


class Filter:
    """Which directory entries have passed the filter on a path."""

    def __init__(self, an, ck, fn, n):
        self.an, self.ck, self.fn, self.n = an, ck, fn, n
        self.p = param(fn, filterparam(fn))
        self.good, self.open, self.retained = set(), set(), set()
        self.pents, self.selfok = frozenset(), frozenset()

    def isentry(self, eng, x):
        return x in self.pents or x[0] in ("r", "o") and name_of(eng, x) == "next" and "DirEntry" in (eng.sites[x[1]].item or "")

    def entries(self, eng, v):
        """Directory entries a value comes from, not looking into containers."""
        def stop(x):
            return x[0] == "mut" or self.isentry(eng, x) or (x[0] in ("r", "o") and name_of(eng, x) in (
                "Iterator::collect", "std::fs::read_dir", "Itertools::sorted_by_key"))
        return {x for x in flow(eng, v, stop) if self.isentry(eng, x)}

    def passed(self, st, x):
        return has(st, "pass", x)

    def call(self, eng, st, ev):
        if ev.name == "?dyn" and len(ev.args) > 1 and self.p in strip(eng, ev.args[0]):
            self.n.hit("entries put to the filter", ev)
            add(st, "asked", ev.sid, frozenset(self.entries(eng, ev.args[1])))
        if ev.local is not None:
            i = filterparam(ev.local)
            if i is not None and i < len(ev.args) and strip(eng, ev.args[i]) != {self.p}:
                self.ck.bad("filter given to %s by %s" % (ev.local.short, self.fn.short), "%s calls %s with another filter than it was given: %s" % (
                    self.fn.pretty(), ev.local.pretty(), eng.show(ev.args[i])), ev.span, eng.chain(ev.ctx))
        # entries put into a list
        if PUSH.match(ev.name):
            for a in ev.args[1:]:
                self.keep(eng, st, ev.sid, a)

    def keep(self, eng, st, sid, v):
        for x in self.entries(eng, v):
            (self.good if self.passed(st, x) else self.open).add(place(eng, sid))

    def kept(self, eng, st, site, v):
        self.keep(eng, st, site.sid, v)

    def fact(self, eng, st, v, val, eq):
        if v[0] == "r":
            for t in list(st.mon):
                if t[0] == "asked" and t[1] == v[1]:
                    truth = (val == 1) == eq
                    for x in t[2]:
                        if truth:
                            add(st, "pass", x)
                        else:
                            drop(st, lambda y: y[0] == "pass" and y[1] is x)

    def result(self, eng, st, ev, v):
        if ev.name.endswith("::retain") and ev.argtys and "DirEntry" in ev.argtys[0]["s"]:
            rets = [a[0] for a in eng.sites[ev.sid].args if len(a) == 1]
            if rets and all(x[0] in ("r", "o") and name_of(eng, x) == "?dyn" and any(self.p in strip(eng, a[0]) for a in call_args(eng, x)) for x in rets):
                self.retained.add(place(eng, ev.sid))

    def item(self, eng, st, ev, it, v):
        item = eng.sites[v[1]].item or ""
        if "DirEntry" not in item:
            return
        self.n.hit("directory entries", ev)
        drop(st, lambda t: t[0] in ("asked",) or (t[0] == "pass" and t[1][0] == "o"))
        src = set()
        for x in eng.origins(it[2][0]):
            if x[0] in ("r", "o"):
                src.add(x[1])
            elif x[0] == "mut":
                src |= eng.muts[x]
        src = {place(eng, i) for i in src}
        if (src & self.good and not src & self.open) or src & self.retained:
            add(st, "pass", v)

    def wrong(self, eng, st, v):
        """Entries in v that have not passed."""
        return [x for x in self.entries(eng, v) if not self.passed(st, x)]


SINK = re.compile(r"^std::fs::(File::open|read|read_to_string|read_dir|read_link)$")


def entryparams(fn):
    """Directory entries a function is given."""
    return frozenset(param(fn, i) for i in range(fn.argc) if re.search(r"^(&(mut )?)?(std::fs::)?DirEntry$", fn.locals[i + 1][0]["s"]))


def filtered(an, ck, fn, n, selfok=frozenset()):
    """No directory entry is used in fn unless it has passed fn's filter."""
    pents = entryparams(fn) if fn.id in selfok else frozenset()
    # what is put into lists is found out first, and used the second time
    first = Filter(an, Ck("first"), fn, Seen())
    first.pents, first.selfok = pents, selfok
    filtered1(an, Ck("first"), fn, Seen(), first)
    F = Filter(an, ck, fn, n)
    F.pents, F.selfok = pents, selfok
    F.good, F.open, F.retained = first.good, first.open, first.retained
    return filtered1(an, ck, fn, n, F)


def selffiltering(an, rts):
    """The functions that put the entries they are given to the filter themselves."""
    ids = {f.id for f in rts if entryparams(f)}
    while True:
        bad = set()
        for f in rts:
            if f.id in ids:
                c = Ck("try")
                filtered(an, c, f, Seen(), ids)
                if c.viol:
                    bad.add(f.id)
        if not bad:
            return ids
        ids -= bad


def filtered1(an, ck, fn, n, F):
    ops = Opens()

    def sink(eng, st, ev, vals, what):
        for a in vals:
            for x in F.entries(eng, a):
                n.hit("uses of directory entries", ev)
                if not F.passed(st, x):
                    ck.bad("%s before the filter in %s" % (what, fn.short), "%s uses a directory entry that has not passed the exclusion filter (%s)" % (
                        fn.pretty(), what), ev.span, eng.chain(ev.ctx))

    def on_call(eng, st, ev):
        F.call(eng, st, ev)
        ops.call(eng, st, ev)
        if ops.effect(eng, st, ev) in ("destroy", "new", "create") or SINK.match(ev.name) or OPEN.match(ev.name):
            sink(eng, st, ev, ev.args, last(ev.name))
        elif ev.local is not None and ev.local.id not in F.selfok and (any(ev.local.id == x[0] for x in eng.stack) or ev.local.id in m.cut):
            sink(eng, st, ev, ev.args, last(ev.local.short))
        elif PUSH.match(ev.name) and not any("DirEntry" in t["s"] for t in ev.argtys[:1]):
            sink(eng, st, ev, ev.args[1:], last(ev.name))

    def kept(eng, st, site, v):
        F.kept(eng, st, site, v)
        if "DirEntry" not in ((site.dty or {}).get("s") or "DirEntry") and F.entries(eng, v):
            ev = Event(sid=site.sid, callee=site.callee, fn=site.fn, args=(v,), raw=(v,), ctx=site.ctx, bb=site.bb, span=site.span, local=None,
                       argtys=[], dty=site.dty, tyenv={}, stack=[])
            sink(eng, st, ev, [v], "collect")

    m = Mon(cut=[f for f in cuts(an) if f.id != fn.id], on_call=on_call, on_fact=F.fact, on_item=F.item, on_result=F.result)
    m.kept = kept
    e = an.engine(m)
    o = e.run(fn.id)
    ck.absorb(e, o)
    return e.visited_fns


def C11(an, ck):
    n = Seen()
    visited = set()
    rts = filtered_roots(an)
    for need in ("snapcd::dir::put_fs_item", "snapcd::dir::checkout_fs_item", "snapcd::dir::walk_real_fs_items"):
        if filterparam(an.fn(need)) is None:
            ck.bad("%s without filter" % need, "%s takes no exclusion filter" % need, an.fn(need).span)
    selfok = selffiltering(an, rts)
    for fn in rts:
        visited |= filtered(an, ck, fn, n, selfok)
    # every place that lists a directory is one of those
    reach = an.p.reachable([an.main.id])
    for f, c, g, sp in calls_in(an, {x.id for x in an.p.fns.values() if x.blocks}):
        if c.name in ("std::fs::read_dir", "std::path::Path::read_dir"):
            n.hit("places that list a directory", f.id, sp)
            if f.id in reach and f.id not in visited:
                ck.bad("%s in %s" % (c.name, f.short), "%s lists a directory without the exclusion filter" % f.pretty(), sp, [f.id])
        if re.search(r"^(walkdir|ignore|glob)::", c.name):
            ck.bad("%s in %s" % (c.name, f.short), "%s lists a directory without the exclusion filter" % f.pretty(), sp, [f.id])
    if not n["directory entries"]:
        raise CheckError("no directory is listed anywhere")
    makefilter(an, ck, n)
    provenance(an, ck, n)
    n.into(ck)


def makefilter(an, ck, n):
    """The filter admits an entry only if it is not in the database folder and no pattern matches."""
    mk_ = an.fn("snapcd::filter::make_filter_fn")
    excl, db = param(mk_, 0), param(mk_, 1)

    def src(eng, v):
        return "patterns" if excl in roots(eng, v) else None
    each = Each(n, ck, mk_, "the exclude patterns", src, "added", order=False)
    clos = []

    def on_call(eng, st, ev):
        each.call(eng, st, ev)
        if re.search(r"GlobSetBuilder::add$", ev.name):
            n.hit("patterns added", ev)
            each.used(eng, st, ev.args[1:])
        if re.search(r"globset::(GlobBuilder::(literal_separator|case_insensitive|backslash_escape|empty_alternates))$", ev.name):
            ck.bad("%s in %s" % (last(ev.name), mk_.short), "the exclude patterns are given another meaning (%s)" % ev.name, ev.span)

    def on_ret(eng, st, f, ctx, v):
        if not outermost(eng, ctx):
            return
        each.ret(eng, st, f, v)
        if not has(st, "ended", "patterns"):
            ck.bad("patterns not used", "make_filter_fn does not put all exclude patterns into the filter", f.span)
        x = v
        for _ in range(6):
            if x[0] in ("r", "o") and call_args(eng, x):
                x = next(iter(call_args(eng, x)))[0]
            elif x[0] == "conv":
                x = x[1]
        if x[0] == "clo":
            clos.append((eng, x))
        else:
            ck.notes.append("the filter returned by make_filter_fn is not a closure the analysis can see: %s" % eng.show(v))

    def on_kept(eng, st, site, v):
        each.used(eng, st, [v])
    m = Mon(on_call=on_call, on_ret=on_ret, on_item=each.item, on_end=each.end, on_fact=each.fact)
    m.kept = on_kept
    e = an.engine(m)
    o = e.run(mk_.id)
    ck.absorb(e, o)
    done = set()
    for eng0, c in clos:
        if c in done:
            continue
        done.add(c)
        f = an.p.fn(c[1])
        caps = c[2]
        dbs = {i for i, v in enumerate(caps) if db in eng0.origins(v)}
        globs = {i for i, v in enumerate(caps) if any(re.search(r"GlobSetBuilder::build$|GlobSet::", x) for x in eng0.origin_calls(v))}
        # captured values by the engine's own terms
        entry = mk("p", f.id, 1)

        def ispath(eng, v):
            """the entry's path, possibly without a leading ./"""
            for x in roots(eng, v):
                if x[0] in ("r", "o") and name_of(eng, x) in ("std::path::Path::strip_prefix", "std::fs::DirEntry::path", "std::path::Path::components",
                                                             "globset::Candidate::new"):
                    if name_of(eng, x) == "std::fs::DirEntry::path":
                        if any(entry not in strip(eng, a[0]) for a in call_args(eng, x)):
                            return False
                        continue
                    for a in call_args(eng, x):
                        if not ispath(eng, a[0]):
                            return False
                        if name_of(eng, x).endswith("strip_prefix") and not (a[1][0] == "c" and a[1][1] == "bytes" and bytes.fromhex(a[1][2]) in (b"./", b".")):
                            return False
                elif x[0] in ("r", "o") and name_of(eng, x) in ("std::path::Components::as_path",):
                    for a in call_args(eng, x):
                        if not ispath(eng, a[0]):
                            return False
                else:
                    return False
            return True

        def canon(eng, v, want):
            for x in roots(eng, v):
                if not (x[0] in ("r", "o") and name_of(eng, x) in ("std::fs::canonicalize", "std::path::Path::canonicalize")):
                    return False
                for a in call_args(eng, x):
                    if not want(eng, a[0]):
                        return False
            return True

        def cap(eng, v, idx):
            return any(x[0] == "f" and x[1] == mk("p", f.id, 0) and x[2] in idx for x in eng.origins(v)) or any(
                i in idx and caps[i] in eng.origins(v) for i in range(len(caps)))
        isdb = lambda eng, v: cap(eng, v, dbs)

        def ccall(eng, st, ev):
            if ev.name == "std::path::Path::starts_with" and canon(eng, ev.args[0], lambda e_, a: entry in e_.origins(a)):
                n.hit("database folder tests", ev)
                if canon(eng, ev.args[1], isdb) or isdb(eng, ev.args[1]):
                    add(st, "dbtest", ev.sid)
            if re.search(r"GlobSet::is_match\w*$", ev.name):
                n.hit("pattern tests", ev)
                if not cap(eng, ev.args[0], globs) and globs:
                    ck.bad("patterns tested", "the filter tests %s, not the patterns it was built from" % eng.show(ev.args[0]), ev.span)
                if not ispath(eng, ev.args[1]):
                    ck.bad("path tested", "the exclude patterns are compared with %s, not with the path of the entry" % eng.show(ev.args[1]), ev.span)
                else:
                    add(st, "globtest", ev.sid)

        def cfact(eng, st, v, val, eq):
            truth = (val == 1) == eq
            if v[0] == "r":
                for k in ("dbtest", "globtest"):
                    if has(st, k, v[1]) and not truth:
                        add(st, k[:-4] + "ok")

        def test(eng, st, v, depth=0):
            """The tests a returned boolean itself stands for when it is true."""
            out = set()
            for x in strip(eng, v):
                neg = False
                while x[0] == "un" and x[1] == "Not":
                    neg, x = not neg, x[2]
                if x[0] in ("r", "o") and neg:
                    for k in ("dbtest", "globtest"):
                        if has(st, k, x[1]):
                            out.add(k[:-4] + "ok")
                elif x[0] == "bin" and x[1] == "BitAnd" and not neg and depth < 4:
                    out |= test(eng, st, x[2], depth + 1) | test(eng, st, x[3], depth + 1)
            return out

        def cret(eng, st, g, ctx, v):
            if not outermost(eng, ctx):
                return
            if v is FALSE:
                return
            n.hit("ways an entry is admitted", repr(v), st.mon)
            t = test(eng, st, v)
            if not (has(st, "dbok") or "dbok" in t):
                ck.bad("database folder admitted", "the filter can admit an entry without having found that its real path is outside the database folder", g.span)
            if not (has(st, "globok") or "globok" in t):
                ck.bad("excluded path admitted", "the filter can admit an entry without having found that no exclude pattern matches", g.span)
        e2 = an.engine(Mon(on_call=ccall, on_fact=cfact, on_ret=cret))
        o2 = e2.run(f.id)
        ck.absorb(e2, o2)
        if not dbs or not globs:
            ck.notes.append("captured values of the filter closure not recognised")


def provenance(an, ck, n):
    """The filters the commands use."""
    lib = {an.fn("snapcd::dir::" + x).id for x in ("put_fs_item", "checkout_fs_item", "walk_real_fs_items")}
    comp = an.fn("snapcd::diff::compare")
    mf = an.fn("snapcd::filter::make_filter_fn")
    cmds = dict(an.handlers)
    stop = list(lib) + [comp.id, mf.id] + [f.id for f in (an.ds("canonicalize"), an.ds("get_obj"), an.ds("reflog_get"), an.ds("get_head"),
                                                          an.fn("snapcd::commit::commit_tree"))]
    dt = "snapcd::diff::DiffTarget"
    need = lib | {comp.id, mf.id}

    def common(eng, v, field):
        """v is state.common.<field>"""
        return all(fieldname(x) == field and fieldname(x[1]) == "common" for x in strip(eng, v))

    def dbf(eng, v):
        return all(fieldname(x) == "db_folder_path" for x in strip(eng, v))

    def checkmf(eng, ev, who, a, b, va, vb):
        at = (ev.span, eng.chain(ev.ctx))
        if not va:
            ck.bad("patterns of the filter in %s" % who, "the filter is built from %s, not from the exclude patterns given" % eng.show(a), *at)
        if not vb:
            ck.bad("database folder of the filter in %s" % who, "the filter protects %s, not the repository's database folder" % eng.show(b), *at)

    for name, h in sorted(cmds.items()):
        if name == "DebugWalkFsTree":
            continue

        def on_call(eng, st, ev):
            at = (ev.span, eng.chain(ev.ctx))
            if ev.local is None:
                return
            if ev.local.id in lib:
                i = filterparam(ev.local)
                n.hit("filters given by commands", ev)
                r = calls(eng, ev.args[i], r"make_filter_fn$")
                if r is None:
                    ck.bad("filter of %s in %s" % (last(ev.local.short), name), "%s is given %s as its filter, not one made of the exclude patterns and the database folder" % (
                        ev.local.pretty(), eng.show(ev.args[i])), *at)
            if ev.local.id == mf.id:
                n.hit("filters built by commands", ev)
                checkmf(eng, ev, h.short, ev.args[0], ev.args[1], common(eng, ev.args[0], "exclude"), dbf(eng, ev.args[1]))
            if ev.local.id == comp.id:
                for x in strip(eng, ev.args[1]):
                    if x[0] == "agg" and x[1] == dt and x[2] == an.variant(dt, "FileSystem"):
                        n.hit("comparisons with a working directory", ev)
                        checkmf(eng, ev, h.short, x[3][1], x[3][2], common(eng, x[3][1], "exclude"), dbf(eng, x[3][2]))
        if not (need & an.p.reachable([h.id])):
            continue
        e = an.engine(Mon(cut=stop, cutp=lambda eng, f: f.id.startswith("snapcd::"), on_call=on_call))
        o = e.run(h.id)
        ck.absorb(e, o)
    # compare itself
    fs = an.variant(dt, "FileSystem")
    tgt = param(comp, 1)

    def on_call(eng, st, ev):
        if ev.local is None:
            return
        at = (ev.span, eng.chain(ev.ctx))
        if ev.local.id in lib:
            n.hit("filters given by compare", ev)
            if calls(eng, ev.args[filterparam(ev.local)], r"make_filter_fn$") is None:
                ck.bad("filter of %s in compare" % last(ev.local.short), "%s is given %s as its filter" % (ev.local.pretty(), eng.show(ev.args[filterparam(ev.local)])), *at)
        if ev.local.id == mf.id:
            checkmf(eng, ev, "compare", ev.args[0], ev.args[1], strip(eng, ev.args[0]) == {mk("v", tgt, fs, 1)}, strip(eng, ev.args[1]) == {mk("v", tgt, fs, 2)})
            n.hit("filters built by compare", ev)
    e = an.engine(Mon(cut=list(lib) + [mf.id, an.fn("snapcd::dir::walk_fs_items").id, an.fn("snapcd::dir::hash_fs_item").id], on_call=on_call))
    o = e.run(comp.id)
    ck.absorb(e, o)


# ---------------------------------------------------------------------- C10
GUARD = b"/home/jess/src/snapcd/repo"
REMOVE = re.compile(r"^std::fs::(remove_file|remove_dir)$")


def C10(an, ck):
    n = Seen()
    root = an.fn("snapcd::dir::checkout_fs_item")
    cmd = an.handler("Checkout")
    destructive = {f.id for f, c, g, sp in calls_in(an, [x.id for x in an.p.fns.values() if x.blocks]) if DESTROY.match(c.name) or OPEN.match(c.name)}
    if filterparam(root) is None:
        ck.bad("checkout without filter", "checkout_fs_item takes no exclusion filter", root.span)
    else:
        filtered(an, ck, root, n)

    def constpath(v):
        if v[0] == "c" and v[1] == "bytes":
            b = bytes.fromhex(v[2])
            return b == GUARD or b.startswith(GUARD + b"/")
        return False

    def isname_set(eng, v):
        return any(isnames(eng, x) for x in flow(eng, v))

    def run(fn, cut):
        # what is put into lists is found out first, and used the second time
        tables = (set(), set(), set())
        run1(fn, cut, Ck("first"), tables, False)
        return run1(fn, cut, ck, tables, True)

    def run1(fn, cut, ck, tables, second):
        ops = Opens()

        def guarded(eng, st, p):
            fl = flow(eng, p)
            return any(t[0] == "guard" and t[1] in fl for t in st.mon)

        collects = {i for i in tables[2]}
        good, open_ = tables[0], tables[1]      # places that put absent, or other, entries into a list

        def keep(eng, st, sid, v):
            fl = flow(eng, v)
            es = {x for x in fl if x[0] in ("r", "o") and name_of(eng, x) == "next"}
            if es:
                (good if any(has(st, "absent", x) for x in es) else open_).add(place(eng, sid))

        def absent(eng, st, p):
            """Is the path made of an entry that is not in the tree?"""
            fl = flow(eng, p)
            for x in fl:
                if x[0] in ("r", "o") and name_of(eng, x) in ("std::collections::HashSet::difference", "std::collections::BTreeSet::difference",
                                                              "std::collections::hash_set::HashSet::difference", "Sub::sub") or (
                        x[0] in ("r", "o") and re.search(r"Set::difference$", name_of(eng, x))):
                    if all(len(a) > 1 and isname_set(eng, a[1]) and not isname_set(eng, a[0]) for a in call_args(eng, x)):
                        return True
            return any(t[0] == "absent" and t[1] in fl for t in st.mon)

        def on_call(eng, st, ev):
            ops.call(eng, st, ev)
            at = (ev.span, eng.chain(ev.ctx))
            if PUSH.match(ev.name):
                for a in ev.args[1:]:
                    keep(eng, st, ev.sid, a)
            e = ops.effect(eng, st, ev)
            rec = ev.local is not None and ev.local.id != root.id and any(ev.local.id == x[0] for x in eng.stack) and an.p.reachable([ev.local.id]) & destructive
            if e == "destroy" or rec:
                if rec:
                    ps = [a for a, t in zip(ev.args, ev.argtys) if re.search(r"\bPath(Buf)?\b", t["s"])]
                else:
                    ps = pathargs(ev)
                what = last(ev.local.short if rec else ev.name)
                for a in ps:
                    n.hit("paths truncated, overwritten or removed", ev)
                    if not guarded(eng, st, a):
                        ck.bad("%s unguarded in %s" % (what, fn.short), "%s reaches %s of %s without having passed the containment check" % (
                            fn.pretty(), ev.name, eng.show(a)), *at)
                    if REMOVE.match(ev.name):
                        n.hit("entries removed", ev)
                        if not absent(eng, st, a):
                            ck.bad("%s of a tree entry in %s" % (what, fn.short), "%s removes %s, which has not been found to be absent from the tree" % (
                                fn.pretty(), eng.show(a)), *at)
                if ev.name == "std::fs::remove_dir_all":
                    ck.bad("remove_dir_all in %s" % fn.short, "%s removes everything below a directory, whether or not the filter excludes it" % fn.pretty(), *at)
                if ev.name in ("std::fs::rename", "std::fs::copy") and not any(isnames(eng, x) for x in flow(eng, ev.args[1])) and (
                        not any(x[0] == "p" for x in strip(eng, ev.args[1]))):
                    ck.bad("%s in %s" % (what, fn.short), "%s moves files to %s" % (fn.pretty(), eng.show(ev.args[1])), *at)

        def elems(eng, v):
            return [x for x in eng.origins(v) if x[0] in ("r", "o") and name_of(eng, x) == "next"]

        def on_fact(eng, st, v, val, eq):
            truth = (val == 1) == eq
            if v[0] != "r":
                return
            nm = name_of(eng, v)
            if nm == "std::path::Path::starts_with" and truth:
                for a in call_args(eng, v):
                    if constpath(a[1]):
                        n.hit("containment checks passed", v[1])
                        for x in roots(eng, a[0]):
                            add(st, "guard", x)
                            if x[0] in ("r", "o") and JOIN.match(name_of(eng, x)):
                                pass
            if re.search(r"(::|^)contains(_key)?$", nm) and not truth:
                for a in call_args(eng, v):
                    if len(a) > 1 and isname_set(eng, a[0]):
                        for x in elems(eng, a[1]):
                            add(st, "absent", x)

        def on_item(eng, st, ev, it, v):
            drop(st, lambda t: t[0] == "absent" and (v == t[1] or t[1][0] == "o"))
            src = set()
            for x in strip(eng, it[2][0]):
                if x[0] in ("r", "o"):
                    src.add(x[1])
                elif x[0] == "mut":
                    src |= eng.muts[x]
            src = {place(eng, i) for i in src}
            if src & good and not src & open_ or (second and src and src <= collects - good - open_):
                add(st, "absent", v)

        m = Mon(cut=[f for f in cuts(an)] + cut, on_call=on_call, on_fact=on_fact, on_item=on_item)
        m.kept = lambda eng, st, site, v: keep(eng, st, site.sid, v)
        e = an.engine(m)
        o = e.run(fn.id)
        ck.absorb(e, o)
        tables[2].update(place(e, i) for i, x in e.sites.items() if re.search(r"::collect$|^Iterator::collect", x.name))
        return e.visited_fns
    seen = run(root, []) | run(cmd, [root])
    reach = an.p.reachable([cmd.id])
    for f, c, g, sp in calls_in(an, reach):
        if DESTROY.match(c.name):
            n.hit("calls that can destroy below checkout", f.id, sp)
            if f.id not in seen:
                ck.bad("%s in %s" % (last(c.name), f.short), "checkout can reach %s outside of what the containment check guards" % c.name, sp, [cmd.short, f.short])
    if not n["paths truncated, overwritten or removed"]:
        raise CheckError("checkout writes and removes nothing")
    n.into(ck)


# ---------------------------------------------------------------------- C12
def C12(an, ck):
    n = Seen()
    may = {"Fetch", "Checkout", "Init"}
    hs = dict(an.handlers)
    cg = an.p.callgraph()
    WOPT = re.compile(r"^std::fs::OpenOptions::(write|append|truncate|create|create_new)$")

    def effect(c):
        return DESTROY.match(c.name) or CREATE.match(c.name) or WOPT.match(c.name) or re.search(
            r"^(libc|nix|rustix|tempfile|fs_extra|filetime)::|load_extension|rusqlite::backup::|Connection::(backup|restore|load_extension)", c.name)

    def opens(c):
        return re.search(r"rusqlite::(\w+::)*Connection::open", c.name)

    def path_to(a, b):
        prev, todo = {a: None}, [a]
        while todo:
            x = todo.pop(0)
            if x == b:
                out = []
                while x:
                    out.append(x)
                    x = prev[x]
                return out[::-1]
            for y in sorted(cg[x][1]) if x in cg else ():
                if y not in prev:
                    prev[y] = x
                    todo.append(y)
        return [a, b]
    groups = {f.id for f in an.groups.values()}
    for name, h in sorted(hs.items()):
        n.hit("commands", name)
        if name in may:
            continue
        for f, c, g, sp in calls_in(an, an.p.reachable([h.id])):
            n.hit("calls below commands that must not write files", f.id, sp, c.name)
            if effect(c) or opens(c):
                ck.bad("%s in %s from %s" % (last(c.name), f.short, name), "command %s can reach %s" % (name, c.name), sp, path_to(h.id, f.id))
    # the dispatchers between main and the commands do nothing themselves
    hid = {h.id for h in hs.values()}

    def without(start):
        out, todo = set(), [start]
        while todo:
            x = todo.pop()
            if x in out or x in hid or x not in cg:
                continue
            out.add(x)
            todo.extend(cg[x][1])
        return out
    mainfns = without(an.main.id)
    dsnew, cachenew = an.assoc("SqliteDS", "new"), an.assoc("SqliteCache", "new")

    def fromcache(eng, v):
        return any(x[0] in ("r", "o") and name_of(eng, x) == "dirs::cache_dir" for x in eng.origins(v))

    def run(root, cut, kind):
        ops = Opens()

        def on_call(eng, st, ev):
            ops.call(eng, st, ev)
            at = (ev.span, eng.chain(ev.ctx))
            e = ops.effect(eng, st, ev)
            if e in ("destroy", "new", "create"):
                n.hit("file-system changes by %s" % kind, ev)
                a = pathargs(ev)[0] if ev.args else UNK
                good = ev.name in ("std::fs::create_dir", "std::fs::create_dir_all") and (
                    fromcache(eng, a) if kind == "start-up" else all(fieldname(x) == "db_path" for x in strip(eng, a)))
                if not good:
                    ck.bad("%s by %s" % (last(ev.name), kind), "%s calls %s of %s" % (kind, ev.name, eng.show(a)), *at)
            if ev.local is not None and ev.local.id in (dsnew.id, cachenew.id):
                n.hit("databases opened by %s" % kind, ev)
                a = ev.args[0]
                isds = ev.local.id == dsnew.id
                fl = eng.origins(a)
                if isds:
                    good = any(fieldname(x) == "db_path" for x in fl) and not fromcache(eng, a)
                else:
                    good = fromcache(eng, a) or all(x[0] == "c" and x[1] == "bytes" and bytes.fromhex(x[2]) == b":memory:" for x in strip(eng, a))
                if not good:
                    ck.bad("%s by %s" % (ev.local.short, kind), "%s opens a database at %s" % (kind, eng.show(a)), *at)
        e = an.engine(Mon(cut=list(cut) + [dsnew, cachenew], cutp=lambda eng, f: f.id.startswith("snapcd::") and not (reach(f.id) & eff), on_call=on_call))
        o = e.run(root.id)
        ck.absorb(e, o)
        return e.visited_fns
    eff = {f.id for f, c, g, sp in calls_in(an, [x.id for x in an.p.fns.values() if x.blocks]) if effect(c) or opens(c)} | {dsnew.id, cachenew.id}
    memo = {}

    def reach(fid):
        if fid not in memo:
            memo[fid] = an.p.reachable([fid])
        return memo[fid]
    init = an.handler("Init")
    seen = run(an.main, list(hs.values()), "start-up")
    seen |= run(init, [], "init")
    skip = {dsnew.id, cachenew.id}
    for f, c, g, sp in calls_in(an, mainfns | an.p.reachable([init.id])):
        if f.id in skip:
            continue
        n.hit("calls of start-up and init", f.id, sp, c.name)
        if (effect(c) and f.id not in seen) or opens(c):
            ck.bad("%s in %s" % (last(c.name), f.short), "start-up or init can reach %s" % c.name, sp, [f.id])
    for f, c, g, sp in calls_in(an, skip):
        if effect(c):
            ck.bad("%s in %s" % (last(c.name), f.short), "opening a database can reach %s" % c.name, sp, [f.id])
    for name in ("Fetch", "Checkout"):
        for f, c, g, sp in calls_in(an, an.p.reachable([hs[name].id])):
            if opens(c):
                ck.bad("%s in %s from %s" % (last(c.name), f.short, name), "command %s opens another database" % name, sp, path_to(hs[name].id, f.id))
    if not n["databases opened by start-up"]:
        raise CheckError("main opens no database")
    n.into(ck)
