"""C33: commands work on exactly what they were given, and print what they found."""
from .trees import *
from .cmdrules import hcuts, printer, argof, isarg, isnone, issome, listed, commit_of, tree_of, empties, Errs
from .shown import PRINT, TEXT
from .. import sqluse

CUT = re.compile(r"^std::(str|string::String)::(truncate|split_at|split_off|drain|pop|remove|get|chars|trim\w*|replace\w*|to_(upper|lower|ascii_upper|ascii_lower)case|split\w*|rsplit\w*)$|^Iterator::(take|skip|step_by|nth|filter|take_while|skip_while)$")
GET = re.compile(r"(^|::)(canonicalize)$")


class Cmd:
    """One command: what it must do, with what."""

    def __init__(self, an, ck, n, name):
        self.an, self.ck, self.n, self.name = an, ck, n, name
        self.h = an.handler(name)
        self.err = Errs(an)
        self.sinks = {}          # fn id -> (what, {argument: test})
        self.answers = {}        # fn id -> what is to be printed
        self.lists = {}          # fn id -> order matters
        self.excuse = None
        self.each = {}

    def bad(self, key, msg, ev=None, eng=None):
        self.ck.bad("%s: %s" % (self.name, key), "command %s %s" % (self.name, msg), ev.span if ev is not None else self.h.span,
                    eng.chain(ev.ctx) if eng is not None else (self.h.id,))

    # -- where values come from
    def absent(self, st, field):
        return has(st, "absent", field)

    def given(self, eng, st, v, field="key", elemof=False):
        """Is v what the store has under the key in that argument?"""
        rs = roots(eng, v)
        for x in rs:
            if not (x[0] in ("r", "o") and GET.search(name_of(eng, x))):
                return False
            w = [t[2] for t in st.mon if t[0] == "look" and t[1] == x]
            for k in (w or [frozenset(y for a in call_args(eng, x) for y in roots(eng, a[1]))]):
                if not k or not all(self.arg(eng, y, field, elemof) for y in k):
                    return False
        return bool(rs)

    def arg(self, eng, y, field, elemof=False):
        if fieldname(y) == field and y[1][0] == "p":
            return not elemof
        if elemof:
            return any(self.listof(eng, c, field) for c in nextof(eng, y) + [c for c, i in elem(eng, y)])
        return False

    def listof(self, eng, v, field, d=0):
        """Is v the list in that argument, or a copy of it?"""
        out = []
        for z in bases(v):
            for b in roots(eng, z):
                if d < 6 and b[0] in ("r", "o") and re.search(r"^(Iterator|FromIterator)::(collect|from_iter)$|^IntoIterator::into_iter$|::(iter|to_vec|clone|into_boxed_slice)$", name_of(eng, b)):
                    args = call_args(eng, b)      # a collected element stands beside its iterator
                    out += [self.listof(eng, a[0], field, d + 1) for a in args if a[0][0] == "it" or not any(q[0][0] == "it" for q in args)]
                else:
                    out.append(fieldname(b) == field and b[1][0] == "p")
        return bool(out) and all(out)

    def head(self, eng, k):
        """Is k the tip of HEAD's ref?"""
        return k[0] in ("r", "o") and re.search(r"(^|::)reflog_get$", name_of(eng, k)) and all(
            calls(eng, a[1], r"(^|::)get_head$") and isnone(a[2]) for a in call_args(eng, k))

    def headtree(self, eng, v):
        ks = tree_of(eng, v)
        return bool(ks) and all(self.head(eng, k) for k in ks)

    def unclear(self, eng, v):
        """A value put together in a way the rule does not follow."""
        return any(x[0] == "x" or x[0] == "mut" for x in roots(eng, v))

    # -- events
    def on_call(self, eng, st, ev):
        for e in self.each.values():
            e.call(eng, st, ev)
        if PRINT.match(ev.name) and ev.name != "Write::write_fmt":
            o = set()
            for a in ev.args:
                o |= eng.origins(a)
            self.printed(eng, st, o, ev)
        elif TEXT.match(ev.name) and len(ev.args) >= 2:
            o = set()
            for a in ev.args[1:]:
                o |= eng.origins(a)
            self.printed(eng, st, o, ev, False)
        f = ev.local
        if f is None or f.id not in self.sinks:
            return
        what, tests = self.sinks[f.id]
        self.n.hit("calls checked", self.name, ev)
        add(st, "did", f.id)
        for i, (say, test) in tests.items():
            v = ev.args[i]
            r = test(eng, st, v)
            if r is False:
                self.bad("%s, %s" % (what, say), "%s with the %s %s, which is not what it was asked for" % (what, say, eng.show(v)), ev, eng)

    def printed(self, eng, st, o, ev, out=True):
        for k, e in self.each.items():
            if k == "parents":
                continue
            for t in list(st.mon):
                if t[0] == "pend" and t[2] in o:
                    st.mon = st.mon - {t}
                    self.n.hit("entries printed", self.name, ev)
            if e.indexed(eng, st, ev.args):
                self.n.hit("entries printed", self.name, ev)
        drop(st, lambda t: t[0] == "none")
        for t in list(st.mon):
            if t[0] == "answer" and any(x in o for x in (t[1], mk("v", t[1], 0, 0), mk("v", t[1], 1, 0))):
                self.n.hit("answers printed", self.name, ev)
                st.mon = st.mon - {t}
                for x in o:
                    if x[0] in ("r", "o") and CUT.search(name_of(eng, x)) and any(t[1] in eng.origins(a[0]) for a in call_args(eng, x) if a) or (
                            x[0] == "f" and x[2] == "[..]" and t[1] in eng.origins(x) and not (x[3] is None and x[4] is None)) or (
                            x[0] in ("r", "o") and name_of(eng, x) in ("Index::index", "std::str::get") and any(t[1] in eng.origins(a[0]) for a in call_args(eng, x) if a)):
                        self.bad("part of %s" % t[2], "prints only part of %s (%s)" % (t[2], eng.show(x)), ev, eng)

    def on_result(self, eng, st, ev, v):
        if GET.search(ev.name) and len(ev.args) > 1:
            g = mk("r", ev.sid)
            for x in roots(eng, v) | {g}:
                drop(st, lambda t: t[0] == "look" and t[1] == x)
                add(st, "look", x, frozenset(roots(eng, ev.args[1])))
        f = ev.local
        if f is None:
            return
        if f.id in self.answers:
            drop(st, lambda t: t[0] == "answer" and t[2] == self.answers[f.id])
            add(st, "answer", mk("r", ev.sid), self.answers[f.id], re.match(r"std::result::Result<std::option::Option<", (ev.dty or {}).get("s", "") if isinstance(ev.dty, dict) else str(ev.dty)) is not None)
            add(st, "asked", f.id)
        if f.id in self.lists:
            add(st, "asked", f.id)
            add(st, "walked", f.id, mk("r", ev.sid))

    def on_fact(self, eng, st, v, val, eq):
        self.err.fact(eng, st, v, val, eq)
        for e in self.each.values():
            e.fact(eng, st, v, val, eq)
        if v[0] == "discr" and (val == eng.discr_of(OPTION, 0)) == eq:
            for t in list(st.mon):
                if t[0] == "answer" and t[3] and v[1] == mk("v", t[1], 0, 0):
                    # there is nothing, and any words will do to say so
                    st.mon = st.mon - {t}
                    add(st, "none", t[2])
        if v[0] == "discr" and v[1][0] == "f" and v[1][1][0] == "p" and (val == eng.discr_of(OPTION, 0)) == eq:
            add(st, "absent", fieldname(v[1]))
        for x in empties(eng, v, val, eq):
            for k, e in self.each.items():
                if e.key(eng, x):
                    add(st, "ended", e.key(eng, x))

    def on_item(self, eng, st, ev, it, v):
        for e in self.each.values():
            e.item(eng, st, ev, it, v)

    def on_end(self, eng, st, ev, it):
        for e in self.each.values():
            e.end(eng, st, ev, it)

    def kept(self, eng, st, site, v):
        o = eng.origins(v)
        for t in list(st.mon):
            if t[0] == "pend" and t[2] in o:
                st.mon = st.mon - {t}

    def on_ret(self, eng, st, f, ctx, v):
        if not outermost(eng, ctx) or okval(v) is None:
            return
        self.n.hit("successful ends of commands", self.name, len(st.mon))
        if self.excuse and self.excuse(eng, st):
            return
        for i, (what, tests) in self.sinks.items():
            if not has(st, "did", i):
                self.bad("not done", "can succeed without having reached the point where it %s" % what)
        for i, what in self.answers.items():
            if not has(st, "asked", i):
                self.bad("no answer", "can succeed without having asked for %s" % what)
        for t in st.mon:
            if t[0] in ("answer", "none"):
                self.bad("answer not printed", "can succeed without having printed %s" % (t[1] if t[0] == "none" else t[2]))
        for i, what in self.lists.items():
            if not has(st, "asked", i):
                self.bad("no answer", "can succeed without having asked for %s" % what[0])
        for e in self.each.values():
            e.ret(eng, st, f, v)
            if not e.ended(st, e.name):
                self.bad("%s not printed" % e.what, "can succeed without having printed %s" % e.what)

    def walk(self, fn, what, order):
        self.lists[fn.id] = (what, order)

        def src(eng, base):
            for x in roots(eng, base):
                if x[0] in ("r", "o") and getattr(eng.sites[x[1]].callee, "id", None) == fn.id:
                    return what
                if x[0] in ("r", "o") and re.search(r"::(values|keys|iter|into_iter|into_values|into_keys)$|Iterator::(collect|cloned|copied)$|FromIterator::from_iter$|^std::slice::to_vec$", name_of(eng, x)):
                    for a in call_args(eng, x):
                        for b in bases(a[0]):
                            if b != base and src(eng, b):
                                return what
            return None
        e = Each(self.n, self.ck, self.h, what, src, "printed", order)
        e.name = what
        self.each[fn.id] = e
        return self

    def sink(self, fn, what, tests):
        self.sinks[fn.id] = (what, tests)
        return self

    def answer(self, fn, what):
        self.answers[fn.id] = what
        return self

    def run(self, extra=()):
        an = self.an
        cut = hcuts(an) + [an.fn(x) for x in ("snapcd::display::display_obj", "snapcd::display::log_obj")] + [an.assoc("Object", "debug_pretty_print"), an.assoc("Key", "as_user_key")] + list(extra)
        m = Mon(cut=cut, cutp=printer, on_call=self.on_call, on_result=self.on_result, on_fact=self.on_fact,
                on_item=self.on_item, on_end=self.on_end, on_ret=self.on_ret)
        m.kept = self.kept
        e = an.engine(m)
        self.ck.absorb(e, e.run(self.h.id))


def C33(an, ck):
    n = Seen()
    d = {x: an.ds(x) for x in ("get_head", "put_head", "reflog_get", "reflog_push", "reflog_walk", "canonicalize", "get_obj")}
    lib = {x: an.fn("snapcd::" + x) for x in ("dir::put_fs_item", "dir::get_fs_item", "dir::checkout_fs_item", "dir::walk_fs_items", "dir::walk_real_fs_items",
                                             "commit::commit_tree", "diff::compare")}
    cmp_ = lib["diff::compare"]
    old = [i for i in range(cmp_.argc) if re.search(r"Option<.*FSItem>", cmp_.locals[i + 1][0]["s"])]
    if len(old) != 1:
        raise CheckError("compare does not take the tree to compare with")
    old = old[0]
    adt = "snapcd::ds::Reflog"
    ki = an.field(adt, "key")

    def named(field):
        return lambda eng, st, v: isarg(eng, v, field)

    def asked(c, field="key"):
        return lambda eng, st, v: c.given(eng, st, v, field)

    def entry(c):
        def test(eng, st, v):
            for x in strip(eng, v):
                y = x
                while y[0] in ("ov", "mut"):
                    y = y[1]
                if y[0] == "agg" and y[1] == adt and not c.given(eng, st, eng.proj(x, ("f", ki, "key"))):
                    return False
            return True
        return test

    # insert, fetch
    c = Cmd(an, ck, n, "Insert")
    f = lib["dir::put_fs_item"]
    c.sink(f, "archives", {pathparam(f): ("path", named("path"))}).answer(f, "the key of what it archived").run()
    c = Cmd(an, ck, n, "Fetch")
    f = lib["dir::get_fs_item"]
    c.sink(f, "restores", {keyparam(f): ("object", asked(c)), pathparam(f): ("destination", named("dest"))}).run()
    # compare, status, checkout
    c = Cmd(an, ck, n, "Compare")

    def tree(c, opt):
        def test(eng, st, v):
            if isnone(v):
                return False
            for x in roots(eng, v):
                if isnone(x):
                    return False
                if opt and c.given(eng, st, x):
                    continue
                if (not opt or c.absent(st, "key")) and c.headtree(eng, x):
                    continue
                return False
            return True
        return test
    c.sink(cmp_, "compares", {old: ("tree", tree(c, True))}).run()
    c = Cmd(an, ck, n, "Status")
    c.excuse = lambda eng, st, c=c: c.err.notfound(st)
    c.sink(cmp_, "compares", {old: ("tree", tree(c, False))}).run()
    c = Cmd(an, ck, n, "Checkout")
    f = lib["dir::checkout_fs_item"]
    c.sink(f, "checks out", {keyparam(f): ("tree", tree(c, False))}).run()
    # refs
    for name in ("RefUpdate", "DebugReflogPush"):
        c = Cmd(an, ck, n, name)
        c.sink(d["reflog_push"], "moves a ref", {1: ("entry", entry(c))}).run()
    for name in ("CheckoutHead", "DebugSetHead"):
        c = Cmd(an, ck, n, name)
        if name == "CheckoutHead":
            c.excuse = lambda eng, st: not has(st, "did", d["put_head"].id)
        c.sink(d["put_head"], "sets HEAD", {1: ("name", named("refname"))}).run()
    Cmd(an, ck, n, "RefLog").walk(d["reflog_walk"], "the entries of the ref", True).run()
    Cmd(an, ck, n, "DebugReflogGet").answer(d["reflog_get"], "the tip of the ref").run()
    Cmd(an, ck, n, "DebugGetHead").answer(d["get_head"], "HEAD").run()
    # objects and trees
    c = Cmd(an, ck, n, "DebugPrettyPrint")
    pp = an.assoc("Object", "debug_pretty_print")

    def stored(eng, st, v):
        gs = calls(eng, v, r"(^|::)get_obj$", True)
        return bool(gs) and all(c.given(eng, st, a[1]) for g in gs for a in call_args(eng, g))
    c.sink(pp, "prints an object", {0: ("object", stored)}).run()
    c = Cmd(an, ck, n, "DebugWalkTree")
    f = lib["dir::walk_fs_items"]
    c.sink(f, "walks a tree", {keyparam(f): ("object", asked(c))}).walk(f, "the entries of the tree", False).run()
    c = Cmd(an, ck, n, "DebugWalkFsTree")
    f = lib["dir::walk_real_fs_items"]
    c.sink(f, "walks a directory", {pathparam(f): ("path", named("path"))}).walk(f, "the entries of the directory", False).run()
    c = Cmd(an, ck, n, "DebugCommitTree")
    f = lib["commit::commit_tree"]
    tp = [i for i in range(f.argc) if re.search(r"TypedKey<.*FSItem>", f.locals[i + 1][0]["s"]) and "Vec<" not in f.locals[i + 1][0]["s"]]
    pp_ = [i for i in range(f.argc) if re.search(r"Vec<.*Commit|\[.*Commit", f.locals[i + 1][0]["s"])]
    if len(tp) != 1 or len(pp_) != 1:
        raise CheckError("commit_tree does not take one tree and its parents")

    def parents(eng, st, v):
        l = listed(eng, v)
        if l is None:
            return None
        return all(c.given(eng, st, x, "parents", True) for x in l)
    c.sink(f, "commits", {tp[0]: ("tree", asked(c, "tree")), pp_[0]: ("parents", parents)}).answer(f, "the key of the commit")

    def psrc(eng, base):
        return "the parents given" if c.listof(eng, base, "parents") else None
    e = Each(n, ck, c.h, "the parents given", psrc, "recorded", True)
    e.name = "the parents given"
    c.each["parents"] = e
    oc, ret = c.on_call, c.on_ret

    def on_call(eng, st, ev):
        if PUSH.match(ev.name):
            e.used(eng, st, ev.args[1:])
            e.indexed(eng, st, ev.args[1:])
        oc(eng, st, ev)
    c.on_call = on_call
    c.run()
    for k in ("calls checked", "answers printed", "entries printed"):
        if not n[k]:
            raise CheckError("no %s" % k)
    n.into(ck)


# what a command may change, by the table that holds it
MAY = {
    "reflog": ("moves refs", {"Commit", "RefUpdate", "DebugReflogPush"}),
    "state": ("changes HEAD", {"Init", "CheckoutHead", "DebugSetHead"}),
    "data": ("stores objects", {"Insert", "Commit", "DebugCommitTree", "Compare", "Status", "CheckoutHead", "Show", "Log"}),
}


def C34(an, ck):
    n = Seen()
    uses = sqluse.collect(an, ck)[0]
    made = {s["name"] for u in uses for s in u.stmts if s["k"] == "create" and s["obj"] == "TABLE"}
    tabs = {}
    for what, f in (("reflog", "reflog_push"), ("state", "raw_put_state"), ("data", "raw_put")):
        w = an.ds(f)
        mine = [s for u in uses if u.root.id == w.id for s in u.stmts]
        ts = {s["table"] for s in mine if s["k"] in ("insert", "update")}
        ts = ts or {x for s in mine if s["k"] == "?" and s["verb"].upper() in ("INSERT", "REPLACE", "UPDATE") for x in s["words"] if x in made}
        if not ts:
            raise CheckError("%s writes to no table" % w.pretty())
        for t in ts:
            tabs[t] = what
    writes = {}              # function -> [(what it changes, use)]
    for u in uses:
        if sqluse.owner(u) != "ds":
            continue
        for s in u.stmts:
            n.hit("statements classified", str(u.ev.span), s["k"])
            ts = []
            if s["k"] in ("insert", "update", "delete", "drop", "alter"):
                ts = [s.get("table")]
            elif s["k"] == "?" and s["verb"].upper() not in ("SELECT", "WITH", "EXPLAIN", "PRAGMA"):
                ts = [t for t in tabs if t in s["words"]]
            for t in ts:
                if t in tabs:
                    writes.setdefault(u.root.id, []).append((tabs[t], u))
    live = {h.id for h in an.handlers.values()}
    for name, h in sorted(an.handlers.items()):
        reach = an.p.reachable([h.id])
        n.hit("commands", name)
        for f in sorted(set(writes) & reach):
            for what, u in writes[f]:
                say, may = MAY[what]
                n.hit("ways a command can write", name, f, what)
                if name not in may:
                    ck.bad("%s %s" % (name, say), "command %s %s (%r in %s), which it is not there to do" % (name, say, u.text.strip(), an.p.fn(f).pretty()),
                           u.ev.span, an.p.path(h.id, f) if hasattr(an.p, "path") else [h.id, f])
    # what runs around every command
    cg = an.p.callgraph()
    groups = {g.id for g in an.groups.values()}
    seen, todo = set(), [an.main.id]
    while todo:
        x = todo.pop()
        if x in seen or x in live or x in groups or x not in cg:
            continue
        seen.add(x)
        todo += sorted(cg[x][1])
        for what, u in writes.get(x, ()):
            ck.bad("main %s" % MAY[what][0], "every command %s (%r in %s)" % (MAY[what][0], u.text.strip(), an.p.fn(x).pretty()), u.ev.span, [an.main.id, x])
    for x in seen:
        n.hit("functions around the commands", x)
    n.into(ck)
