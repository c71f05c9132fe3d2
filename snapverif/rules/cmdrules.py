"""What the commands do with the store: C14, C15, C24, C25, C28, C29."""
from .prov import *
from .fsrules import JOIN, flow, fieldname, calls_in
from .readrules import Types

DSNAMES = ("get_head", "put_head", "reflog_get", "reflog_push", "reflog_walk", "canonicalize", "get_obj", "put_obj")
LIB = ("snapcd::dir::put_fs_item", "snapcd::dir::get_fs_item", "snapcd::dir::checkout_fs_item", "snapcd::dir::walk_fs_items",
       "snapcd::dir::walk_real_fs_items", "snapcd::dir::hash_fs_item", "snapcd::commit::commit_tree", "snapcd::diff::compare",
       "snapcd::filter::make_filter_fn", "snapcd::file::put_data", "snapcd::file::read_data")
FIRST = re.compile(r"^std::(slice|vec::Vec)::(get|first|get_unchecked|split_first)$|^Index::index$")
ZERO = mk("c", "int", 0, "usize")


def hcuts(an, without=()):
    out = [an.ds(x) for x in DSNAMES] + [an.fn(x) for x in LIB] + an.decoders("FSItem") + an.decoders("Commit") + an.encoders("FSItem") + an.encoders("Commit")
    return [f for f in out if f.id not in without and f.short not in without]


def printer(eng, f):
    """Functions that only show a comparison's result."""
    return any(re.search(r"diff::(DiffResult|ModifiedDiffResult)$", f.locals[i + 1][0]["s"]) and not f.locals[i + 1][0]["s"].startswith("&")
               for i in range(f.argc)) or f.short.split("::")[-1] in ("create_diff_patch_result", "patch_from_file_string", "line_stat")


def argof(ev, fn, rx):
    """The argument of a call whose parameter type matches."""
    for i in range(fn.argc):
        if re.search(rx, fn.locals[i + 1][0]["s"]) and i < len(ev.args):
            return ev.args[i]
    raise CheckError("%s has no parameter of type %s" % (fn.id, rx))


def isarg(eng, v, field):
    """Every source of v is the given field of the command's arguments."""
    r = roots(eng, v)
    return bool(r) and all(fieldname(x) == field and x[1][0] == "p" for x in r)


def isnone(v):
    return v[0] == "agg" and v[1] == OPTION and v[2] == 0


def issome(v):
    return v[0] == "agg" and v[1] == OPTION and v[2] == 1


def listed(eng, v, d=0):
    """The elements of a list, None if they cannot be told."""
    out = []
    s = strip(eng, v)
    if len(s) != 1 or d > 6:
        return None
    x = next(iter(s))
    if x[0] == "agg" and x[1] == "array":
        return list(x[3])
    if x[0] in ("r", "o") and re.search(r"^std::vec::Vec::(new|with_capacity)$|^Default::default$", name_of(eng, x)):
        return []
    if x[0] in ("r", "o") and re.search(r"^Iterator::collect$|^FromIterator::from_iter$|::into_vec$|box_assume_init_into_vec_unsafe$|::to_vec$|^std::iter::(once|IntoIterator::into_iter)", name_of(eng, x)):
        for a in call_args(eng, x):
            r = listed(eng, a[0], d + 1)
            if r is None:
                return None
            out += r
        return out
    if x[0] == "it" and x[1] in ("src", "copied", "cloned", "map_id"):
        return listed(eng, x[2][0], d + 1)
    if isnone(x):
        return []
    if issome(x):
        return [x[3][0]]
    if x[0] == "mut":
        b = listed(eng, x[1], d + 1)
        if b is None:
            return None
        for i in sorted(eng.muts[x]):
            s = eng.sites[i]
            if not re.search(r"::(push|push_back|insert)$", s.name):
                return None
            for a in s.args:
                b.append(a[-1])
        return b
    return None


def commit_of(eng, v):
    """The keys of the commits v (a decoded commit) was looked up with."""
    out = set()
    for x in roots(eng, v, mut=True):
        if x[0] in ("r", "o") and last(name_of(eng, x)) in ("try_into", "try_from"):
            for a in call_args(eng, x):
                g = calls(eng, a[0], r"(^|::)get_obj$")
                if g is None:
                    return None
                for y in g:
                    for b in call_args(eng, y):
                        out |= roots(eng, b[1])
        else:
            return None
    return out or None


def tree_of(eng, v):
    """The keys of the commits whose tree v is, or None."""
    out = set()
    for x in roots(eng, v):
        if fieldname(x) != "tree":
            return None
        k = commit_of(eng, x[1])
        if k is None:
            return None
        out |= k
    return out or None


class Errs:
    """Which kinds of lookup error are possible on a path."""

    def __init__(self, an):
        self.adt = "snapcd::ds::GetReflogError"
        if self.adt not in an.adts:
            raise CheckError("type %s not found" % self.adt)
        self.nf = an.variant(self.adt, "NotFound")
        self.all = frozenset(range(len(an.adts[self.adt]["v"])))

    def fact(self, eng, st, v, val, eq):
        if v[0] != "discr":
            return
        x = v[1]
        if x[0] == "v" and x[2:] == (1, 0) and x[1][0] in ("r", "o") and re.search(r"(^|::)reflog_get$", name_of(eng, x[1])):
            i = eng.variant_of(self.adt, val)
            cur = self.all
            for t in st.mon:
                if t[0] == "errs" and t[1] == x[1]:
                    cur = t[2]
            drop(st, lambda t: t[0] == "errs" and t[1] == x[1])
            add(st, "errs", x[1], cur & {i} if eq else cur - {i})

    def notfound(self, st, r=None):
        """Is a lookup known to have found no such ref?"""
        return any(t[0] == "errs" and t[2] == frozenset([self.nf]) and (r is None or t[1] == r) for t in st.mon)


# ---------------------------------------------------------------------- C14
def C14(an, ck):
    n = Seen()
    h = an.handler("Commit")
    ct, pf, rg, rp = an.fn("snapcd::commit::commit_tree"), an.fn("snapcd::dir::put_fs_item"), an.ds("reflog_get"), an.ds("reflog_push")
    errs = Errs(an)
    fo = [f[0] for f in an.adts["snapcd::ds::Reflog"]["v"][0][1]] if "snapcd::ds::Reflog" in an.adts else None
    if fo is None:
        raise CheckError("type Reflog not found")

    def isref(eng, st, v):
        """The ref named, or the current HEAD if none was."""
        r = roots(eng, v)
        for x in r:
            if fieldname(x) == "refname" and x[1][0] == "p":
                continue
            if x[0] in ("r", "o") and re.search(r"(^|::)get_head$", name_of(eng, x)) and has(st, "not given"):
                continue
            return False
        return bool(r)

    def on_call(eng, st, ev):
        at = (ev.span, eng.chain(ev.ctx))
        if ev.local is None:
            return
        if ev.local.id == rg.id:
            n.hit("lookups of the previous tip", ev)
            if not isref(eng, st, ev.args[1]):
                ck.bad("ref looked up", "the previous tip looked up is that of %s, not of the ref committed to" % eng.show(ev.args[1]), *at)
            if not isnone(ev.args[2]):
                ck.bad("remote looked up", "the previous tip is looked up for the remote %s, not for the local ref" % eng.show(ev.args[2]), *at)
        elif ev.local.id == ct.id:
            n.hit("commits stored", ev)
            tree, parents, attrs = argof(ev, ct, r"FSItem>"), argof(ev, ct, r"Vec<.*Commit>"), argof(ev, ct, r"CommitAttrs")
            if calls(eng, tree, r"(^|::)put_fs_item$") is None:
                ck.bad("tree committed", "the tree of the commit is %s, not the key that archiving returned" % eng.show(tree), *at)
            if not any(fieldname(x) == "message" and x[1][0] == "p" for x in eng.origins(attrs)):
                ck.bad("message committed", "the commit does not record the message given", *at)
            edit = edited(eng, attrs)
            if edit:
                ck.bad("message committed", "the commit does not record the message as it was given, but changed by %s" % ", ".join(sorted(edit)), *at)
            tips = [t[1] for t in st.mon if t[0] == "tip"]
            l = listed(eng, parents)
            if tips:
                if l is not None:
                    good = len(l) == 1 and all(roots(eng, y) <= set(tips) for y in l)
                else:
                    good = any(t in eng.origins(parents) for t in tips)
                if not good:
                    ck.bad("parents with a tip", "the ref has a tip, but the parents of the commit are %s" % eng.show(parents), *at)
            elif errs.notfound(st):
                if l:
                    ck.bad("parents without a tip", "the ref has no tip, but the parents of the commit are %s" % eng.show(parents), *at)
            else:
                ck.bad("commit without lookup", "a commit can be stored without the previous tip of the ref being known (found, or no such ref)", *at)
        elif ev.local.id == rp.id:
            n.hit("refs moved", ev)
            x = ev.args[1]
            if has(st, "moved"):
                ck.bad("ref moved twice", "a commit can move a ref twice", *at)
            add(st, "moved")
            if not (x[0] == "agg" and x[1] == "snapcd::ds::Reflog"):
                xs = [y for y in strip(eng, x) if y[0] == "agg" and y[1] == "snapcd::ds::Reflog"]
                if not xs:
                    ck.bad("entry of the ref", "the ref entry is %s" % eng.show(x), *at)
                    return
                x = xs[0]
            f = dict(zip(fo, x[3]))
            if calls(eng, f["key"], r"(^|::)commit_tree$") is None:
                ck.bad("key of the ref", "the ref is moved to %s, not to the commit that was stored" % eng.show(f["key"]), *at)
            if not isref(eng, st, f["refname"]):
                ck.bad("name of the ref", "the ref that is moved is %s, not the ref named or else the current HEAD" % eng.show(f["refname"]), *at)
            if not isnone(f["remote"]):
                ck.bad("remote of the ref", "the ref is moved for the remote %s, not locally" % eng.show(f["remote"]), *at)

    def on_result(eng, st, ev, v):
        if ev.local is not None and ev.local.id == rg.id:
            out = []
            for s2, v2, good in fork(eng, st, v):
                if good:
                    add(s2, "tip", v)
                out.append((s2, v2))
            return out

    def on_fact(eng, st, v, val, eq):
        errs.fact(eng, st, v, val, eq)
        if v[0] == "discr" and fieldname(v[1]) == "refname" and v[1][1][0] == "p" and (val == eng.discr_of(OPTION, 0)) == eq:
            add(st, "not given")

    def on_ret(eng, st, f, ctx, v):
        if outermost(eng, ctx) and okval(v) is not None:
            n.hit("successful ends of commit", st.mon)
            if not has(st, "moved"):
                ck.bad("ref not moved", "committing can succeed without moving the ref", f.span)
    e = an.engine(Mon(cut=hcuts(an), on_call=on_call, on_result=on_result, on_fact=on_fact, on_ret=on_ret))
    o = e.run(h.id)
    ck.absorb(e, o)
    if not n["commits stored"] or not n["refs moved"]:
        ck.bad("nothing committed", "the commit command stores no commit or moves no ref", h.span)
    # --- commit_tree itself
    enc = an.encoders("Commit")
    po = an.ds("put_obj")
    adt = "snapcd::commit::Commit"
    cf = {f[0]: f[1] for f in an.adts[adt]["v"][0][1]}
    names = [f[0] for f in an.adts[adt]["v"][0][1]]

    def pidx(rx):
        for i in range(ct.argc):
            if re.search(rx, ct.locals[i + 1][0]["s"]):
                return i
        raise CheckError("parameter %s of commit_tree not found" % rx)
    want = {"tree": pidx(r"FSItem>"), "parents": pidx(r"Vec<.*Commit>"), "attrs": pidx(r"CommitAttrs")}

    def on_agg(eng, st, a, var, fields, span, ctx):
        if a != adt:
            return
        n.hit("commits built", str(span))
        for nm, v in zip(names, fields[3]):
            if nm not in want:
                continue
            p = param(ct, want[nm])
            x = v
            bad = None
            for y in strip(eng, v):
                while y[0] == "mut" and nm == "parents":
                    for i in eng.muts[y]:
                        if not re.search(r"::(sort\w*|dedup|reserve\w*|shrink_to_fit)$", eng.sites[i].name):
                            bad = eng.sites[i].name
                    y = y[1]
                if y != p and roots(eng, y) != {p}:
                    # rebuilt, at least from the parameter and nothing else
                    r = [z for z in eng.origins(y) if z[0] == "p"]
                    if nm != "parents" or p not in r:
                        bad = "it is %s" % eng.show(v)
            if bad:
                ck.bad("%s in commit_tree" % nm, "the %s of the commit stored are not those given: %s" % (nm, bad), span, ())

    def cc(eng, st, ev):
        if ev.local is not None and ev.local.id == po.id:
            n.hit("commits put into the store", ev)
            es = calls(eng, ev.args[1], r"(^|::)(try_into|try_from|into|from)$")
            if es is None or not all(any(y[0] == "agg" and y[1] == adt for y in eng.origins(a[0])) for x in es for a in call_args(eng, x)):
                ck.bad("object in commit_tree", "commit_tree stores %s, not the encoded commit" % eng.show(ev.args[1]), ev.span)

    def cr(eng, st, f, ctx, v):
        if outermost(eng, ctx) and okval(v) is not None:
            x = okval(v) or v
            n.hit("successful ends of commit_tree", repr(v))
            if calls(eng, x, r"(^|::)put_obj$") is None:
                ck.bad("key of commit_tree", "commit_tree returns %s, not the key the commit was stored under" % eng.show(x), f.span)
    e = an.engine(Mon(cut=[po] + enc, on_call=cc, on_agg=on_agg, on_ret=cr))
    o = e.run(ct.id)
    ck.absorb(e, o)
    n.into(ck)


TEXTEDIT = re.compile(
    r"^std::str::(trim\w*|replace\w*|to_\w*case|lines|r?split\w*|get|strip_\w+|chars|char_indices|repeat|escape_\w+)$|"
    r"^std::string::String::(truncate|retain|remove|pop|drain|clear|insert\w*|push\w*|from_utf8_lossy|replace_range|split_off)$|^std::fmt::format$")


def edited(eng, v):
    """What changes a text on its way into v."""
    out = set()
    for x in eng.origins(v):
        if x[0] in ("r", "o") and TEXTEDIT.match(name_of(eng, x)):
            out.add(name_of(eng, x))
        if x[0] == "mut":
            out |= {eng.sites[i].name for i in eng.muts[x] if TEXTEDIT.match(eng.sites[i].name)}
    return out


# ---------------------------------------------------------------------- C15
def C15(an, ck):
    n = Seen()
    rp = an.ds("reflog_push")
    adt = "snapcd::ds::Reflog"
    ki = an.field(adt, "key")
    ot = "snapcd::object::ObjType"
    cm = an.variant(ot, "Commit")
    seen = set()
    cg = an.p.callgraph()
    for name, h in sorted(an.handlers.items()):
        if rp.id not in an.p.reachable([h.id]):
            continue

        def verified(eng, st, v):
            for x in roots(eng, v):
                if x[0] in ("r", "o") and re.search(r"(^|::)(commit_tree|reflog_get|reflog_walk)$", name_of(eng, x)):
                    continue
                if has(st, "iscommit", x):
                    continue
                if any(fieldname(c) == "parents" and commit_of(eng, c[1]) for c, i in elem(eng, x)):
                    continue
                return False
            return True

        def on_call(eng, st, ev):
            if ev.local is None or ev.local.id != rp.id:
                return
            n.hit("refs moved", ev)
            at = (ev.span, eng.chain(ev.ctx))
            for x in strip(eng, ev.args[1]):
                y = x
                while y[0] in ("ov", "mut"):
                    y = y[1]
                if y[0] == "agg" and y[1] == adt:
                    k = eng.proj(x, ("f", ki, "key"))
                    if not verified(eng, st, k):
                        ck.bad("%s moves a ref unverified" % h.short, "%s moves a ref to %s, which has not been verified to be a stored commit" % (
                            h.pretty(), eng.show(k)), *at)
                else:
                    ck.bad("%s moves a ref to something else" % h.short, "%s moves a ref with the entry %s" % (h.pretty(), eng.show(x)), *at)

        def confirm(eng, st, v):
            """v, an object looked up on this path, has turned out to be a commit."""
            for g in calls(eng, v, r"(^|::)get_obj$") or ():
                for t in list(st.mon):
                    if t[0] == "got" and t[1] == g and len(t[2]) == 1:
                        add(st, "iscommit", *t[2])

        def on_result(eng, st, ev, v):
            if last(ev.name) == "get_obj" and len(ev.args) > 1:
                for x in roots(eng, v):
                    drop(st, lambda t: t[0] == "got" and t[1] == x)
                    add(st, "got", x, frozenset(roots(eng, ev.args[1])))
                g = mk("r", ev.sid)
                drop(st, lambda t: t[0] == "got" and t[1] == g)
                add(st, "got", g, frozenset(roots(eng, ev.args[1])))
            if ev.local is not None and ev.local.id in dec:
                out = []
                for s2, v2, good in fork(eng, st, v):
                    if good:
                        confirm(eng, s2, ev.args[0])
                    out.append((s2, v2))
                return out

        def on_fact(eng, st, v, val, eq):
            if v[0] == "discr" and eq and eng.variant_of(ot, val) == cm:
                for x in strip(eng, v[1]):
                    if fieldname(x) == "objtype":
                        confirm(eng, st, x[1])
        dec = {f.id for f in an.decoders("Commit")}
        e = an.engine(Mon(cut=hcuts(an), cutp=printer, on_call=on_call, on_result=on_result, on_fact=on_fact))
        o = e.run(h.id)
        ck.absorb(e, o)
        seen |= e.visited_fns
    if not n["refs moved"]:
        raise CheckError("no command moves a ref")
    live = an.p.reachable([an.main.id])
    for f, c, g, sp in calls_in(an, {x.id for x in an.p.fns.values() if x.blocks}):
        if last(c.name) == "reflog_push" and f.id not in seen and f.id in live and f.id != rp.id:
            ck.bad("%s moves a ref" % f.short, "%s moves a ref outside of the commands" % f.pretty(), sp, [f.id])
    n.into(ck)


# ---------------------------------------------------------------------- C24
def zero(eng, v, d=0):
    """The lists that are empty if v is zero."""
    out = set()
    for x in strip(eng, v):
        if x[0] in ("r", "o") and re.search(r"::len$|^un:PtrMetadata|^Iterator::count$", name_of(eng, x)):
            for a in call_args(eng, x):
                out |= strip(eng, a[0])
        elif x[0] in ("r", "o") and re.match(r"bin:(Add\w*|BitOr)$", name_of(eng, x)) and d < 6:
            for a in call_args(eng, x):
                out |= zero(eng, a[0], d + 1) | zero(eng, a[1], d + 1)
        elif x[0] == "f" and x[2] in (0, "0") and d < 6:
            out |= zero(eng, x[1], d + 1)
    return out


def empties(eng, v, val, eq):
    """The lists a fact shows to be empty."""
    truth = (val == 1) == eq
    out = set()
    for x in strip(eng, v):
        if x[0] in ("r", "o") and EMPTY.match(name_of(eng, x)) and truth:
            for a in call_args(eng, x):
                out |= strip(eng, a[0])
        if val == 0 and eq:
            out |= zero(eng, x)
        if x[0] == "bin" and x[1] in ("Eq", "Ne", "Gt", "Lt", "Ge", "Le"):
            a, b = x[2], x[3]
            iszero = lambda y: y[0] == "c" and y[1] == "int" and y[2] == 0
            isone = lambda y: y[0] == "c" and y[1] == "int" and y[2] == 1
            if (x[1], truth) in (("Eq", True), ("Ne", False)):
                out |= zero(eng, a) if iszero(b) else zero(eng, b) if iszero(a) else set()
            elif (x[1], truth) in (("Gt", False), ("Le", True)) and iszero(b) or (x[1], truth) in (("Lt", True), ("Ge", False)) and isone(b):
                out |= zero(eng, a)
            elif (x[1], truth) in (("Lt", False), ("Ge", True)) and iszero(a) or (x[1], truth) in (("Gt", True), ("Le", False)) and isone(a):
                out |= zero(eng, b)
    return out


def filesystem(an, eng, v):
    """(path, excludes, database folder) if v is a working directory to compare."""
    dt = "snapcd::diff::DiffTarget"
    out = []
    for x in strip(eng, v):
        if x[0] == "agg" and x[1] == dt and x[2] == an.variant(dt, "FileSystem"):
            out.append(x[3])
        else:
            return None
    return out


def C24(an, ck):
    n = Seen()
    ph, gh, cmp_ = an.ds("put_head"), an.ds("get_head"), an.fn("snapcd::diff::compare")
    rps = an.ds("raw_put_state")
    errs = Errs(an)
    may = {"CheckoutHead", "Init", "DebugSetHead"}
    for name, h in sorted(an.handlers.items()):
        r = an.p.reachable([h.id])
        n.hit("commands", name)
        if (ph.id in r or rps.id in r) and name not in may:
            for f, c, g, sp in calls_in(an, r):
                if last(c.name) in ("put_head", "raw_put_state") and f.id not in (ph.id, rps.id):
                    ck.bad("%s switches HEAD" % name, "command %s can switch HEAD" % name, sp, [h.id, f.id])
    for f, c, g, sp in calls_in(an, {x.id for x in an.p.fns.values() if x.blocks}):
        if last(c.name) == "raw_put_state" and f.id != ph.id:
            n.hit("writers of the state", f.id)
            if f.id in an.p.reachable([an.main.id]):
                ck.bad("state written by %s" % f.short, "%s writes the repository state without put_head" % f.pretty(), sp, [f.id])
    for need in ("CheckoutHead", "Init"):
        if ph.id not in an.p.reachable([an.handler(need).id]):
            ck.bad("%s sets no HEAD" % need, "command %s never sets HEAD" % need, an.handler(need).span)
    LISTS = ("added", "deleted", "modified")

    def head_tip(eng, v):
        """v is the key the current HEAD points to"""
        for x in roots(eng, v):
            if not (x[0] in ("r", "o") and re.search(r"(^|::)reflog_get$", name_of(eng, x))):
                return False
            for a in call_args(eng, x):
                if calls(eng, a[1], r"(^|::)get_head$") is None or not isnone(a[2]):
                    return False
        return True
    # --- checkout-head
    h = an.handler("CheckoutHead")

    def on_call(eng, st, ev):
        if ev.local is None:
            return
        at = (ev.span, eng.chain(ev.ctx))
        if ev.local.id == cmp_.id:
            n.hit("comparisons before switching", ev)
            add(st, "compared", ev.sid)
            w = filesystem(an, eng, argof(ev, cmp_, "DiffTarget"))
            if w is None:
                ck.bad("comparison in checkout-head", "checkout-head compares %s, not the working directory" % eng.show(argof(ev, cmp_, "DiffTarget")), *at)
            else:
                for p, ex, db in w:
                    if not all(fieldname(x) == "repo_path" for x in roots(eng, p)):
                        ck.bad("directory compared", "checkout-head compares %s, not the whole working directory" % eng.show(p), *at)
            t = argof(ev, cmp_, r"Option<.*FSItem>")
            if isnone(t):
                if not errs.notfound(st):
                    ck.bad("compared with nothing", "checkout-head compares with nothing although HEAD may have a commit", *at)
            else:
                ks = tree_of(eng, t)
                if ks is None:
                    if not any(fieldname(x) == "tree" for x in eng.origins(t)):
                        ck.bad("tree compared", "checkout-head compares with %s, not with the tree of the current HEAD" % eng.show(t), *at)
                elif not all(head_tip(eng, k) for k in ks):
                    ck.bad("tree compared", "checkout-head compares with the tree of %s, not of the current HEAD" % ", ".join(eng.show(k) for k in ks), *at)
        elif ev.local.id == ph.id:
            n.hit("switches of HEAD", ev)
            done = [t[1] for t in st.mon if t[0] == "compared"]
            if not done:
                ck.bad("switch without comparison", "checkout-head can switch HEAD without comparing the working directory first", *at)
            for l in LISTS:
                if done and not has(st, "empty", l):
                    ck.bad("switch with %s" % l, "checkout-head can switch HEAD without having found the %s paths to be none" % l, *at)
            if not isarg(eng, ev.args[1], "refname"):
                ck.bad("ref switched to", "checkout-head switches HEAD to %s, not to the ref given" % eng.show(ev.args[1]), *at)

    def on_fact(eng, st, v, val, eq):
        errs.fact(eng, st, v, val, eq)
        for x in empties(eng, v, val, eq):
            if fieldname(x) in LISTS and any(y[0] in ("r", "o") and name_of(eng, y).endswith("diff::compare") for y in eng.origins(x[1])):
                add(st, "empty", fieldname(x))
    e = an.engine(Mon(cut=hcuts(an), cutp=printer, on_call=on_call, on_fact=on_fact))
    o = e.run(h.id)
    ck.absorb(e, o)
    if not n["switches of HEAD"]:
        ck.bad("checkout-head switches nothing", "checkout-head never switches HEAD", h.span)
    # --- init
    h = an.handler("Init")

    def ic(eng, st, ev):
        if ev.local is not None and ev.local.id == ph.id:
            n.hit("HEADs set by init", ev)
            if not any(has(st, "nohead", x) for x in strip(eng, ev.args[0])):
                ck.bad("init sets HEAD", "init can set HEAD without having found that none is set", ev.span, eng.chain(ev.ctx))

    def nohead(eng, st, r):
        for a in call_args(eng, r):
            for x in strip(eng, a[0]):
                add(st, "nohead", x)

    def fi(eng, st, v, val, eq):
        if v[0] == "discr" and v[1][0] == "v" and v[1][2:] == (0, 0) and (val == eng.discr_of(OPTION, 0)) == eq and v[1][1][0] in ("r", "o"):
            if re.search(r"(^|::)get_head$", name_of(eng, v[1][1])):
                nohead(eng, st, v[1][1])
    e = an.engine(Mon(cut=hcuts(an) + [an.assoc("SqliteDS", "new")], on_call=ic, on_fact=fi))
    o = e.run(h.id)
    ck.absorb(e, o)
    # --- get_head and put_head use the same place
    keys = {"get": set(), "put": set()}

    def hc(eng, st, ev):
        if ev.local is not None and last(ev.name) in ("raw_get_state", "raw_put_state"):
            k = "get" if last(ev.name) == "raw_get_state" else "put"
            n.hit("places HEAD is kept", ev)
            for x in strip(eng, ev.args[1]):
                keys[k].add(x[2] if x[0] == "c" and x[1] == "bytes" else eng.show(x))
            if k == "put" and strip(eng, ev.args[2]) != {param(ph, 1)}:
                ck.bad("value of HEAD", "put_head stores %s, not the ref given" % eng.show(ev.args[2]), ev.span)

    def hr(eng, st, f, ctx, v):
        if not outermost(eng, ctx) or okval(v) is None or f.id != gh.id:
            return
        x = okval(v) or v
        if issome(x):
            n.hit("ways get_head answers", repr(x))
            nm = {y for y in eng.origin_calls(x) if not re.search(r"raw_get_state$|from_utf8$|::branch$|^(Into|From|TryInto|ToString|ToOwned|Clone|Deref|AsRef)::|to_owned$|to_string$|into_string$|::new$", y)}
            if nm or not any(last(y) == "raw_get_state" for y in eng.origin_calls(x)):
                ck.bad("answer of get_head", "get_head returns %s, not the ref that was stored" % eng.show(x), f.span)
        elif isnone(x) and not any(t[0] == "none" for t in st.mon):
            ck.bad("get_head answers none", "get_head can answer that no HEAD is set although one is stored", f.span)

    def hf(eng, st, v, val, eq):
        if v[0] == "discr" and (val == eng.discr_of(OPTION, 0)) == eq and any(last(y) == "raw_get_state" for y in eng.origin_calls(v[1])) and (
                v[1][0] == "v" and v[1][2:] == (0, 0)):
            add(st, "none")
    raw = [an.ds("raw_get_state"), rps]
    for f in (gh, ph):
        e = an.engine(Mon(cut=raw, on_call=hc, on_ret=hr, on_fact=hf))
        o = e.run(f.id)
        ck.absorb(e, o)
    if keys["get"] != keys["put"] or len(keys["get"]) != 1:
        ck.bad("place of HEAD", "get_head reads the state %s but put_head writes %s" % (sorted(keys["get"]), sorted(keys["put"])), ph.span)
    n.into(ck)


# ---------------------------------------------------------------------- C28
PROBE = re.compile(r"^std::path::Path::(exists|is_dir|is_file|try_exists|metadata|symlink_metadata|canonicalize)$|^std::fs::(exists|metadata|symlink_metadata|canonicalize)$")
PARENT = re.compile(r"^std::path::Path::parent$")


def C28(an, ck):
    n = Seen()
    main = an.main
    dsnew, canew = an.assoc("SqliteDS", "new"), an.assoc("SqliteCache", "new")
    handlers = list(an.handlers.values()) + list(an.groups.values())
    hid = {f.id for f in handlers}
    dss = [a for a, d in an.adts.items() if a.startswith("bin::") and any(f[0] == "repo_path" for v in d["v"] for f in v[1])]
    if len(dss) != 1:
        raise CheckError("the type that holds the repository's folders was not found")
    dss = dss[0]
    names = [f[0] for f in an.adts[dss]["v"][0][1]]
    files = {"main": set(), "init": set()}

    def joined(eng, v):
        """[(base, what is joined)] if v is a joined path."""
        out = []
        for x in strip(eng, v):
            if x[0] == "mut":
                args = [a for i in eng.muts[x] if JOIN.match(eng.sites[i].name) for a in eng.sites[i].args]
                out += [(x[1], a[1]) for a in args if len(a) > 1]
            elif x[0] in ("r", "o") and JOIN.match(name_of(eng, x)):
                out += [(a[0], a[1]) for a in call_args(eng, x)]
        return out

    def joined_at(eng, st, v):
        """The same, for a path joined on this path of the program."""
        out = []
        for x in strip(eng, v):
            w = [(t[2], t[3]) for t in st.mon if t[0] == "join" and t[1] == x]
            out += w or joined(eng, x)
        return out

    def level(eng, v, seen=()):
        """Is v the current directory or one of its ancestors, by steps of one?"""
        for x in roots(eng, v):
            if x in seen:
                continue
            d = (x,) + seen
            if x[0] in ("r", "o"):
                nm = name_of(eng, x)
                if nm == "std::env::current_dir":
                    continue
                if PARENT.match(nm):
                    if all(level(eng, a[0], d) for a in call_args(eng, x)):
                        continue
                elif nm == "next" and isancestors(eng, x):
                    continue
            elif x[0] == "mut" and all(re.search(r"PathBuf::pop$", eng.sites[i].name) for i in eng.muts[x]) and level(eng, x[1], d):
                continue
            return False
        return True

    def isancestors(eng, x):
        return any(name_of(eng, y) == "std::path::Path::ancestors" for a in call_args(eng, x) for z in a for y in eng.origins(z))

    def isname(eng, v):
        r = roots(eng, v)
        return bool(r) and all(fieldname(x) == "db_path" for x in r)

    def folder(eng, v, st=None):
        """The levels v is the repository folder of, if it is one."""
        out = []
        for b, nm in (joined_at(eng, st, v) if st else joined(eng, v)):
            if isname(eng, nm) and level(eng, b):
                out.append(b)
        return out

    def on_call(eng, st, ev):
        at = (ev.span, eng.chain(ev.ctx))
        if PROBE.match(ev.name):
            n.hit("probes for the repository", ev)
            drop(st, lambda t: t[0] == "asked" and t[1] == ev.sid)
            for x in strip(eng, ev.args[0]):
                add(st, "asked", ev.sid, x)
        elif PARENT.match(ev.name) or ev.name == "std::path::PathBuf::pop":
            for x in roots(eng, ev.args[0]):
                if level(eng, x) and not folder(eng, x):
                    n.hit("steps to the parent directory", ev)
                    if not has(st, "missing", x):
                        ck.bad("step to the parent", "the search goes on to the parent of a directory without having found that it has no repository", *at)
        elif re.match(r"^Iterator::(skip|take|step_by|last|nth)$", ev.name) and any(name_of(eng, y) == "std::path::Path::ancestors" for y in eng.origins(ev.args[0])):
            ck.bad("%s of the ancestors" % last(ev.name), "the search leaves out directories (%s)" % ev.name, *at)
        elif ev.name == "std::env::set_current_dir":
            ck.bad("set_current_dir", "the current directory is changed", *at)
        elif ev.local is not None and ev.local.id == dsnew.id:
            n.hit("repositories opened", ev)
            js = joined_at(eng, st, ev.args[0])
            if not js:
                ck.bad("database opened", "the database opened is %s, not a file of the repository folder" % eng.show(ev.args[0]), *at)
            for b, nm in js:
                for x in strip(eng, nm):
                    files["main"].add(x[2] if x[0] == "c" and x[1] == "bytes" else eng.show(x))
                for x in strip(eng, b):
                    if not has(st, "found", x):
                        ck.bad("database opened", "the database opened is in %s, which is not the repository folder that was found" % eng.show(b), *at)

    def on_fact(eng, st, v, val, eq):
        y, kind = v, "bool"
        if v[0] == "discr":
            y, kind = v[1], "result"
        while y[0] == "v":
            y = y[1]
        if y[0] in ("r", "o"):
            nm = name_of(eng, y)
            if PROBE.match(nm) and y[0] == "r":
                truth = ((val == 1) == eq) if kind == "bool" else ((val == eng.discr_of(RESULT, 0)) == eq)
                if kind == "result" and nm.endswith("exists"):
                    return
                for t in list(st.mon):
                    if t[0] == "asked" and t[1] == y[1]:
                        for b in folder(eng, t[2], st):
                            n.hit("levels of the search", y[1], truth)
                            for x in roots(eng, b):
                                if truth:
                                    add(st, "found", t[2])
                                else:
                                    add(st, "missing", x)
            if PARENT.match(nm) and kind == "result" and (val == eng.discr_of(OPTION, 0)) == eq:
                if any(level(eng, a[0]) for a in call_args(eng, y)):
                    add(st, "top")
            if nm == "std::path::PathBuf::pop" and kind == "bool" and (val == 0) == eq:
                add(st, "top")

    def on_item(eng, st, ev, it, v):
        if any(name_of(eng, y) == "std::path::Path::ancestors" for y in eng.origins(it[2][0])):
            for t in list(st.mon):
                if t[0] == "at" and not has(st, "missing", t[1]):
                    ck.bad("step to the parent", "the search goes on to the parent of a directory without having found that it has no repository", ev.span, eng.chain(ev.ctx))
            drop(st, lambda t: t[0] == "at")
            add(st, "at", v)
            n.hit("steps to the parent directory", ev)

    def on_end(eng, st, ev, it):
        if any(name_of(eng, y) == "std::path::Path::ancestors" for y in eng.origins(it[2][0])):
            for t in list(st.mon):
                if t[0] == "at" and not has(st, "missing", t[1]):
                    ck.bad("end of the search", "the search can end although the last directory has a repository", ev.span, eng.chain(ev.ctx))
            add(st, "top")

    def on_agg(eng, st, adt, var, fields, span, ctx):
        if adt == dss:
            n.hit("repositories assembled", str(span))
            f = dict(zip(names, fields[3]))
            db = set(strip(eng, f["db_folder_path"]))
            if not all(has(st, "found", x) for x in db):
                ck.bad("database folder", "the database folder protected is %s, not the one that was found" % eng.show(f["db_folder_path"]), span)
            for x in roots(eng, f["ds"]):
                w = [t[2] for t in st.mon if t[0] == "opened" and t[1] == x]
                if not w or not set(w) <= db:
                    ck.bad("store and folder", "the store used (%s) is not the one in the database folder" % eng.show(f["ds"]), span)
            for x in roots(eng, f["repo_path"]):
                good = False
                if x[0] in ("r", "o") and PARENT.match(name_of(eng, x)):
                    good = has(st, "parentof", x) and all(t[2] in db for t in st.mon if t[0] == "parent" and t[1] == x)
                elif any(x in roots(eng, b) for d in db for b in folder(eng, d, st)):
                    good = True
                if not good:
                    ck.bad("working directory", "the working directory is %s, not the directory that contains the database folder" % eng.show(f["repo_path"]), span)
        elif adt.startswith("bin::") and any(f[0] == "ds_state" for f in an.adts[adt]["v"][var][1]):
            i = an.field(adt, "ds_state", var)
            x = fields[3][i]
            if isnone(x):
                n.hit("ways to have no repository", str(span))
                if not has(st, "top"):
                    ck.bad("no repository", "a command can run without a repository although not every ancestor of the current directory was searched", span)

    def on_result(eng, st, ev, v):
        if ev.local is not None and ev.local.id == dsnew.id:
            drop(st, lambda t: t[0] == "opened")
            for b, nm in joined_at(eng, st, ev.args[0]):
                for x in strip(eng, b):
                    add(st, "opened", v, x)
        if JOIN.match(ev.name) and len(ev.args) > 1:
            drop(st, lambda t: t[0] == "join" and t[1] == v)
            add(st, "join", v, ev.args[0], ev.args[1])
        if PARENT.match(ev.name):
            drop(st, lambda t: t[0] in ("parent", "parentof") and t[1] == v)
            add(st, "parentof", v)
            for x in strip(eng, ev.args[0]):
                add(st, "parent", v, x)
    cutp = lambda eng, f: bool(f.d.get("trait", "").endswith("Transactional")) or f.id.startswith("bin::") and not (an.p.reachable([f.id]) & touched)
    # functions of the binary that have nothing to do with paths or databases
    touched = {dsnew.id} | {f.id for f, c, g, sp in calls_in(an, [x.id for x in an.p.fns.values() if x.blocks and x.id.startswith("bin::")]) if re.match(
        r"^std::(path|env|fs)::|dirs::", c.name)}
    e = an.engine(Mon(cut=handlers + [dsnew, canew], cutp=cutp, on_call=on_call, on_result=on_result, on_fact=on_fact, on_item=on_item, on_end=on_end, on_agg=on_agg))
    o = e.run(main.id)
    ck.absorb(e, o)
    for need in ("probes for the repository", "repositories opened", "repositories assembled"):
        if not n[need]:
            raise CheckError("no %s found in main" % need)
    # --- init puts its database where main looks for it
    init = an.handler("Init")

    def ic(eng, st, ev):
        if ev.local is not None and ev.local.id == dsnew.id:
            for b, nm in joined(eng, ev.args[0]):
                for x in strip(eng, nm):
                    files["init"].add(x[2] if x[0] == "c" and x[1] == "bytes" else eng.show(x))
                if not all(fieldname(x) == "db_path" for x in strip(eng, b)):
                    ck.bad("database of init", "init makes its database in %s" % eng.show(b), ev.span)
    e = an.engine(Mon(cut=hcuts(an) + [dsnew], on_call=ic))
    o = e.run(init.id)
    ck.absorb(e, o)
    if files["main"] != files["init"] or len(files["main"]) != 1:
        ck.bad("name of the database", "init makes the database file %s but commands open %s" % (sorted(files["init"]), sorted(files["main"])), init.span)
    # --- the directory the commands act on
    acts = {"Insert": ("path",), "Commit": ("path", "repo_path"), "Compare": ("path", "repo_path"), "Status": ("repo_path",), "Checkout": ("repo_path",),
            "CheckoutHead": ("repo_path",), "Fetch": ("dest",), "DebugWalkFsTree": ("path",)}
    lib = {an.fn("snapcd::dir::" + x).id: i for x, i in (("put_fs_item", r"Path"), ("get_fs_item", r"Path"), ("checkout_fs_item", r"Path"), ("walk_real_fs_items", r"Path"))}
    comp = an.fn("snapcd::diff::compare")
    for name, h in sorted(an.handlers.items()):
        if not (an.p.reachable([h.id]) & (set(lib) | {comp.id})):
            continue
        allowed = acts.get(name)

        def hc(eng, st, ev):
            if ev.local is None:
                return
            if ev.local.id in lib:
                ps = [argof(ev, ev.local, r"&.*Path\b|AsRef|PathBuf|^impl|^P$")] if any(re.search(r"Path", ev.local.locals[i + 1][0]["s"]) for i in range(ev.local.argc)) else []
            elif ev.local.id == comp.id:
                w = filesystem(an, eng, argof(ev, comp, "DiffTarget"))
                ps = [x[0] for x in w] if w else []
            else:
                return
            for p in ps:
                n.hit("directories that commands act on", ev)
                for x in roots(eng, p):
                    fnm = fieldname(x)
                    good = allowed is None or fnm in allowed
                    if fnm == "repo_path" and "path" in (allowed or ()) and not has(st, "no path"):
                        good = False
                    if fnm in ("path", "dest") and x[1][0] != "p":
                        good = False
                    if not good:
                        ck.bad("directory of %s" % name, "command %s acts on %s, not on %s" % (name, eng.show(p), " or else ".join(
                            {"path": "the path given", "dest": "the destination given", "repo_path": "the repository's working directory"}[a] for a in allowed or ())),
                            ev.span, eng.chain(ev.ctx))

        def hf(eng, st, v, val, eq):
            if v[0] == "discr" and fieldname(v[1]) == "path" and v[1][1][0] == "p" and (val == eng.discr_of(OPTION, 0)) == eq:
                add(st, "no path")
        e = an.engine(Mon(cut=hcuts(an), cutp=printer, on_call=hc, on_fact=hf))
        o = e.run(h.id)
        ck.absorb(e, o)
    n.into(ck)


# ---------------------------------------------------------------------- C29
def C29(an, ck):
    n = Seen()
    disp, log = an.fn("snapcd::display::display_obj"), an.fn("snapcd::display::log_obj")
    comp, go = an.fn("snapcd::diff::compare"), an.ds("get_obj")
    ty = Types(an)
    dt = "snapcd::diff::DiffTarget"
    dbv = an.variant(dt, "Database")

    def pidx(f, rx):
        for i in range(f.argc):
            if re.search(rx, f.locals[i + 1][0]["s"]):
                return i
        raise CheckError("parameter %s of %s not found" % (rx, f.id))

    def firstparent(eng, v):
        """[(commit, index)] if v is an element of a commit's parents"""
        return [(c[1], i) for x in roots(eng, v) for c, i in elem(eng, x) for c in strip(eng, c) if fieldname(c) == "parents"]

    def parentless(eng, st, v, val, eq):
        """The commits a fact shows to have no parents."""
        out = []
        if v[0] == "discr" and (val == eng.discr_of(OPTION, 0)) == eq:
            out += [c for c, i in firstparent(eng, v[1]) if i is not None and i[0] == "c" and i[2] == 0]
        for x in empties(eng, v, val, eq):
            if fieldname(x) == "parents":
                out.append(x[1])
        return out

    # --- display_obj
    key = param(disp, pidx(disp, r"key::Key$"))

    def on_call(eng, st, ev):
        at = (ev.span, eng.chain(ev.ctx))
        if ev.local is not None and ev.local.id == comp.id:
            n.hit("comparisons shown", ev)
            t = argof(ev, comp, "DiffTarget")
            for x in strip(eng, t):
                ks = tree_of(eng, x[3][0]) if x[0] == "agg" and x[1] == dt and x[2] == dbv else None
                if ks != {key}:
                    ck.bad("new side", "showing a commit compares %s as the new side, not the commit's own tree" % eng.show(t), *at)
            old = argof(ev, comp, r"Option<.*FSItem>")
            for x in strip(eng, old):
                if isnone(x):
                    if not has(st, "noparent", key):
                        ck.bad("old side", "a commit is shown without a parent although it may have one", *at)
                    continue
                ks = tree_of(eng, x)
                if ks is None:
                    if not any(fieldname(y) == "tree" for y in eng.origins(x)):
                        ck.bad("old side", "showing a commit compares %s as the old side, not its first parent's tree" % eng.show(old), *at)
                    continue
                for k in ks:
                    f = firstparent(eng, k)
                    isf = [c for c, i in f if i is not None and i[0] == "c" and i[2] == 0 and commit_of(eng, c) == {key}]
                    if f and len(isf) != len(f) or (not f and not any(fieldname(y) == "parents" for y in eng.origins(k))):
                        ck.bad("old side", "showing a commit compares the tree of %s as the old side, not of its first parent" % eng.show(k), *at)
        elif ev.local is not None:
            for a in ev.args:
                if any(has(st, "compared", x) for x in roots(eng, a)):
                    n.hit("comparisons printed", ev)
                    add(st, "printed")

    def on_fact(eng, st, v, val, eq):
        ty.fact(eng, st, v, val, eq)
        for c in parentless(eng, st, v, val, eq):
            for k in commit_of(eng, c) or ():
                add(st, "noparent", k)

    def on_result(eng, st, ev, v):
        if ev.local is not None and ev.local.id == comp.id:
            add(st, "compared", v)

    def on_ret(eng, st, f, ctx, v):
        if outermost(eng, ctx) and okval(v) is not None and "Commit" in ty.possible(st):
            n.hit("ends of showing a commit", st.mon)
            if not any(t[0] == "compared" for t in st.mon):
                ck.bad("commit not compared", "showing a commit can succeed without comparing its tree with its parent's", f.span)
            elif not has(st, "printed"):
                ck.bad("comparison not shown", "showing a commit can succeed without printing the comparison", f.span)
    cut = [f for f in hcuts(an) if f.id != disp.id]
    e = an.engine(Mon(cut=cut, cutp=lambda eng, f: printer(eng, f) or f.id == disp.id, on_call=on_call, on_result=on_result, on_fact=on_fact, on_ret=on_ret))
    o = e.run(disp.id)
    ck.absorb(e, o)
    # --- log_obj
    lkey = param(log, pidx(log, r"key::Key$"))
    kidx = pidx(disp, r"key::Key$")

    def keysof(eng, st, c):
        """The keys of the commits the decoded commit c was looked up with, on this path."""
        out = set()
        for x in roots(eng, c, mut=True):
            if x[0] in ("r", "o") and last(name_of(eng, x)) in ("try_into", "try_from"):
                w = [t[2] for t in st.mon if t[0] == "dec" and t[1] == x]
                out |= set(w)
        return out

    def lresult(eng, st, ev, v):
        if ev.local is not None and ev.local.id == go.id:
            drop(st, lambda t: t[0] == "obj" and t[1] == v)
            for k in roots(eng, ev.args[1]):
                add(st, "obj", v, k)
        elif ev.local is not None and ev.local.id in dec:
            drop(st, lambda t: t[0] == "dec" and t[1] == v)
            for g in roots(eng, ev.args[0]):
                for t in list(st.mon):
                    if t[0] == "obj" and t[1] == g:
                        add(st, "dec", v, t[2])
        elif re.search(r"^std::slice::(get|first)$|^std::vec::Vec::(get|first)$", ev.name):
            for c in strip(eng, ev.args[0]):
                if fieldname(c) == "parents":
                    i = ev.args[1] if len(ev.args) > 1 else ZERO
                    drop(st, lambda t: t[0] == "par" and t[1] == v)
                    for k in keysof(eng, st, c[1]):
                        add(st, "par", v, k, i[0] == "c" and i[2] == 0)
        return None

    def parents_at(eng, st, x):
        """[(key of the commit, first?)] that x is a parent of on this path"""
        w = [(t[2], t[3]) for t in st.mon if t[0] == "par" and t[1] == x]
        if w:
            return w
        return [(k, i is not None and i[0] == "c" and i[2] == 0) for c, i in elem(eng, x) for y in strip(eng, c) if fieldname(y) == "parents" for k in keysof(eng, st, y[1])]

    def lcall(eng, st, ev):
        if ev.local is None or ev.local.id != disp.id:
            return
        at = (ev.span, eng.chain(ev.ctx))
        n.hit("commits shown by the log", ev)
        rs = roots(eng, ev.args[kidx])
        shown = [t[1] for t in st.mon if t[0] == "shown"]
        for x in rs:
            if not shown:
                if x != lkey:
                    ck.bad("first commit of the log", "the log starts with %s, not with the commit given" % eng.show(x), *at)
                continue
            if x == lkey or x in shown:
                ck.bad("commit shown again", "the log can show %s twice" % eng.show(x), *at)
                continue
            ps = parents_at(eng, st, x)
            for k, first in ps:
                if not first:
                    ck.bad("other parent in the log", "the log goes on with %s, which is not the first parent" % eng.show(x), *at)
                elif k not in shown:
                    ck.bad("commit left out of the log", "the log goes on with a parent of %s, which is not the commit it showed last" % eng.show(k), *at)
            if not ps and not any(fieldname(y) == "parents" for y in eng.origins(x)):
                ck.bad("log continues elsewhere", "the log goes on with %s, which is not a recorded parent" % eng.show(x), *at)
        drop(st, lambda t: t[0] in ("shown", "last"))
        for x in rs:
            add(st, "shown", x)

    def lfact(eng, st, v, val, eq):
        if v[0] == "discr" and (val == eng.discr_of(OPTION, 0)) == eq:
            for x in roots(eng, v[1]):
                for k, first in parents_at(eng, st, x):
                    if first:
                        add(st, "last", k)
        for x in empties(eng, v, val, eq):
            if fieldname(x) == "parents":
                for k in keysof(eng, st, x[1]):
                    add(st, "last", k)

    def lret(eng, st, f, ctx, v):
        if not outermost(eng, ctx) or okval(v) is None:
            return
        n.hit("ends of the log", st.mon)
        shown = [t[1] for t in st.mon if t[0] == "shown"]
        if not shown:
            ck.bad("nothing logged", "the log can succeed without showing the commit given", f.span)
        for k in shown:
            if not has(st, "last", k):
                ck.bad("log ends early", "the log can end after a commit that may have a parent", f.span)
    dec = {f.id for f in an.decoders("Commit")}
    e = an.engine(Mon(cut=hcuts(an) + [disp], cutp=printer, on_call=lcall, on_result=lresult, on_fact=lfact, on_ret=lret))
    o = e.run(log.id)
    ck.absorb(e, o)
    if not n["commits shown by the log"]:
        raise CheckError("the log shows nothing")
    # --- the commands start with the key given, or HEAD's
    for name in ("Show", "Log"):
        h = an.handler(name)
        tgt = {disp.id, log.id}

        def hc(eng, st, ev):
            if ev.local is None or ev.local.id not in tgt:
                return
            n.hit("commits that commands show", ev)
            add(st, "done")
            k = argof(ev, ev.local, r"key::Key$")
            for x in roots(eng, k):
                good = False
                if x[0] in ("r", "o") and re.search(r"(^|::)canonicalize$", name_of(eng, x)):
                    good = all(isarg(eng, a[1], "key") for a in call_args(eng, x))
                elif x[0] in ("r", "o") and re.search(r"(^|::)reflog_get$", name_of(eng, x)) and has(st, "not given"):
                    good = all(calls(eng, a[1], r"(^|::)get_head$") and isnone(a[2]) for a in call_args(eng, x))
                if not good:
                    ck.bad("start of %s" % name, "command %s shows %s, not the object given or else HEAD's commit" % (name, eng.show(k)), ev.span, eng.chain(ev.ctx))

        def hf(eng, st, v, val, eq):
            if v[0] == "discr" and fieldname(v[1]) == "key" and v[1][1][0] == "p" and (val == eng.discr_of(OPTION, 0)) == eq:
                add(st, "not given")

        def hr(eng, st, f, ctx, v):
            if outermost(eng, ctx) and okval(v) is not None and not has(st, "done"):
                ck.bad("%s shows nothing" % name, "command %s can succeed without showing anything" % name, f.span)
        e = an.engine(Mon(cut=hcuts(an) + [disp, log], cutp=printer, on_call=hc, on_fact=hf, on_ret=hr))
        o = e.run(h.id)
        ck.absorb(e, o)
    n.into(ck)


# ---------------------------------------------------------------------- C25
def C25(an, ck):
    n = Seen()
    ALLOWED = ("put_obj", "put_data", "put_fs_item", "hash_fs_item", "get_obj", "canonicalize", "reflog_get", "reflog_walk", "commit_tree", "walk_fs_items",
               "put")
    rec = {"snapcd::object::Object": ("keys",), "snapcd::dir::FSItem": ("children",), "snapcd::commit::Commit": ("tree", "parents"), "snapcd::ds::Reflog": ("key",)}
    for a, fs in rec.items():
        if a not in an.adts:
            raise CheckError("type %s not found" % a)
        for f in fs:
            an.field(a, f)
    cput, cget = an.tm("SqliteCache", "Cache", "put"), an.tm("SqliteCache", "Cache", "get")
    store = {an.ds(x).id for x in ("put_obj", "get_obj", "canonicalize", "reflog_get", "reflog_walk", "get", "put", "hash", "reflog_push")} | {
        an.fn("snapcd::file::put_data").id, an.fn("snapcd::dir::put_fs_item").id, an.fn("snapcd::dir::hash_fs_item").id, an.fn("snapcd::commit::commit_tree").id,
        an.fn("snapcd::dir::walk_fs_items").id, cput.id, cget.id}
    keyfns = re.compile(r"(^|::)(from_db_key|from_user_key|hash|from_bytes|from_str|parse)$")

    def sources(eng, st, v):
        """Keys in v that the store did not hand out."""
        out = []

        def stop(x):
            if x[0] in ("r", "o"):
                nm = last(name_of(eng, x))
                s = eng.sites[x[1]]
                if nm in ALLOWED and (s.name.startswith("snapcd::") or "DataStore" in s.name):
                    return True
                if nm == "get" and "Cache" in s.name:
                    return True
            return False
        for x in flow(eng, v, stop):
            if x[0] == "agg" and x[1] == "snapcd::key::Key":
                out.append(x)
            elif x[0] in ("r", "o"):
                s = eng.sites[x[1]]
                nm = last(s.name)
                if nm == "get" and "Cache" in s.name:
                    ks = [t[1] for t in st.mon if t[0] == "there"]
                    if x not in {y for k in ks for y in roots(eng, k)} and x not in ks:
                        out.append(x)
                elif nm in ("hash",) and "DataStore" in s.name or (nm in ("from_db_key", "from_user_key") and "key" in s.name):
                    out.append(x)
        return out

    fnsrun = []
    skip = re.compile(r"^snapcd::(key|keyish|base32|cache|ds)(::|$)")
    for fn in an.local_roots():
        if "::{closure" in fn.id or skip.match(fn.id) and not fn.id.endswith("put_obj"):
            continue
        if fn.id == an.main.id:
            continue
        fnsrun.append(fn)
    seenfns = set()

    def run(fn):
        def sink(eng, st, v, what, at):
            n.hit("keys recorded", what, str(at[0]))
            for x in sources(eng, st, v):
                ck.bad("%s in %s" % (what, fn.short), "%s records %s as %s, which the store has not handed out" % (fn.pretty(), eng.show(x), what), *at)

        def on_agg(eng, st, adt, var, fields, span, ctx):
            if adt in rec:
                nm = [f[0] for f in an.adts[adt]["v"][var][1]]
                for f, v in zip(nm, fields[3]):
                    if f in rec[adt]:
                        sink(eng, st, v, "%s of %s" % (f, adt.split("::")[-1]), (str(span), eng.chain(ctx) if isinstance(ctx, int) else ()))

        def on_call(eng, st, ev):
            if ev.local is not None and ev.local.id == cput.id or (ev.tm and ev.tm == ("Cache", "put")):
                sink(eng, st, ev.args[2], "value of the cache", (ev.span, eng.chain(ev.ctx)))
            elif ev.local is not None and last(ev.local.short) in ("put_fs_item", "commit_tree", "reflog_push"):
                for a, t in zip(ev.args[1:], ev.argtys[1:]):
                    if "Key<" in t["s"] or t["s"].endswith("key::Key"):
                        sink(eng, st, a, "argument of %s" % last(ev.local.short), (ev.span, eng.chain(ev.ctx)))

        def on_fact(eng, st, v, val, eq):
            y = v
            while y[0] in ("v", "conv"):
                y = y[1]
            if y[0] == "r" and re.search(r"(^|::)(raw_exists|exists)$", name_of(eng, y)) and (val == 1) == eq:
                for a in call_args(eng, y):
                    for z in strip(eng, a[1]) if len(a) > 1 else ():
                        if z[0] in ("r", "o") and name_of(eng, z).endswith("as_db_key"):
                            for b in call_args(eng, z):
                                for k in roots(eng, b[0]):
                                    add(st, "there", k)
        def on_ret(eng, st, f, ctx, v):
            if fn.id in makers and outermost(eng, ctx) and okval(v) not in (None, False):
                sink(eng, st, okval(v), "the key it returns", (fn.span, ()))

        asdb = an.assoc("Key", "as_db_key")
        rex = an.ds("raw_exists")
        e = an.engine(Mon(cut=[i for i in store if i != fn.id] + [asdb, rex] + [f for f in an.decoders("FSItem") + an.decoders("Commit") if f.id != fn.id],
                          cutp=lambda eng, f: printer(eng, f) or f.id != fn.id and f.id in {x.id for x in fnsrun} and f.id.startswith("snapcd::") and not (
                              an.p.reachable([f.id]) & {fn.id}) and heavy(f),
                          on_call=on_call, on_agg=on_agg, on_fact=on_fact, on_ret=on_ret))
        o = e.run(fn.id)
        ck.absorb(e, o)
        seenfns.update(e.visited_fns)
    # what the rest relies on for the keys they return
    makers = {an.fn(x).id for x in ("snapcd::file::put_data", "snapcd::dir::put_fs_item", "snapcd::dir::hash_fs_item", "snapcd::commit::commit_tree")}
    hv = {an.fn(x).id for x in LIB if x != "snapcd::commit::commit_tree"}

    def heavy(f):
        return f.id in hv
    for fn in fnsrun:
        if fn.short.split("::")[-1] in ("create_diff_patch_result", "patch_from_file_string"):
            continue
        run(fn)
    if len(n["keys recorded"]) < 5:
        raise CheckError("only %d places record keys" % len(n["keys recorded"]))
    n.into(ck)
