"""What the rules share: anchors in the analysed program, generic monitors,
reports, evidence."""
import json
import os
import re
import sys
import time
from collections import OrderedDict, Counter

from . import facts
from .engine import (Program, Engine, Monitor, Budget, Event, T, mk, OPTION, RESULT, UNK, TRUE, FALSE, agg, ok, err, some,
                     NONE, sids, CFLOW, TYPEDKEY, COW, EITHER)

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class CheckError(Exception):
    pass


class Ck:
    """One run of one check."""

    def __init__(self, pid, tier="quick"):
        self.pid = pid
        self.tier = tier
        self.viol = OrderedDict()
        self.obl = Counter()
        self.fns = set()
        self.sites = set()
        self.steps = 0
        self.paths = 0
        self.samples = []
        self.notes = []

    def bad(self, key, msg, loc="", chain=()):
        k = re.sub(r"\s+", " ", key)
        if k not in self.viol:
            self.viol[k] = {"key": k, "message": msg, "where": loc, "call_chain": list(chain)}

    def good(self, rule, n=1):
        self.obl[rule] += n

    def sample(self, s):
        if len(self.samples) < 12 and s not in self.samples:
            self.samples.append(s)

    def absorb(self, eng, outs):
        self.fns |= eng.visited_fns
        self.sites |= eng.nsites
        self.steps += eng.steps
        self.paths += len(outs)


class Seen(dict):
    """Obligations by rule, counted once per program point."""

    def hit(self, rule, *at):
        self.setdefault(rule, set()).add(tuple((a.fn.id, a.bb, str(a.span)) if isinstance(a, Event) else a for a in at))

    def __missing__(self, k):
        return set()

    def into(self, ck):
        for k, v in self.items():
            ck.good(k, len(v))


def locof(ev):
    return ev.span if isinstance(ev.span, str) else str(ev.span)


class An:
    """The analysed program with its anchors."""

    def __init__(self, debug=False, fresh=False):
        try:
            f, a = facts.load(debug, fresh)
        except facts.CheckError as e:
            raise CheckError(str(e))
        self.p = Program(f, a)
        self.adts = self.p.adts
        self._anchors()

    # -- anchors
    def fn(self, fid):
        f = self.p.fn(fid)
        if f is None or not f.blocks:
            raise CheckError("anchor function %s not found" % fid)
        return f

    def assoc(self, ty, name):
        """An inherent method."""
        c = [f for f in self.p.fns.values() if f.id.endswith("}::" + name) and not f.d.get("trait")
             and f.d.get("self", {}).get("s", "").split("<")[0].split("::")[-1] == ty]
        if len(c) != 1:
            raise CheckError("anchor %s::%s not found (%d candidates)" % (ty, name, len(c)))
        return c[0]

    def tm(self, ty, trait, name, need=True):
        c = [f for f in self.p.fns.values() if f.d.get("method") == name and f.d.get("trait", "").split("::")[-1] == trait
             and f.d.get("self", {}).get("s", "").split("<")[0].split("::")[-1] == ty]
        if len(c) == 1:
            return c[0]
        g = [f for f in self.p.fns.values() if f.d.get("intrait", "").split("::")[-1] == trait
             and f.d.get("method") == name and f.blocks]
        if g:
            return g[0]
        if need:
            raise CheckError("anchor <%s as %s>::%s not found" % (ty, trait, name))
        return None

    def ds(self, name):
        return self.tm("SqliteDS", "DataStore", name)

    def variant(self, adt, name):
        for i, v in enumerate(self.adts[adt]["v"]):
            if v[0] == name:
                return i
        raise CheckError("variant %s::%s not found" % (adt, name))

    def field(self, adt, name, var=0):
        if adt not in self.adts:
            raise CheckError("type %s not found" % adt)
        for i, f in enumerate(self.adts[adt]["v"][var][1]):
            if f[0] == name:
                return i
        raise CheckError("field %s.%s not found" % (adt, name))

    def _anchors(self):
        # command line handlers: functions that take the payload of a variant
        # of a command enumeration
        self.handlers = {}
        self.groups = {}
        todo = ["bin::Command"]
        seen = set()
        if "bin::Command" not in self.adts:
            raise CheckError("type bin::Command not found")
        while todo:
            e = todo.pop()
            if e in seen:
                continue
            seen.add(e)
            for v in self.adts[e]["v"]:
                if not v[1]:
                    continue
                ty = v[1][0][1]
                sub = "bin::" + ty.split("::")[-1]
                name = v[0] if e == "bin::Command" else e.split("::")[-1].replace("Command", "") + v[0]
                issub = self.adts.get(sub, {}).get("enum")
                if issub:
                    todo.append(sub)
                fs = [f for f in self.p.fns.values() if f.id.startswith("bin::") and f.blocks and not f.derived
                      and "::{" not in f.id and not f.d.get("trait")
                      and any(f.locals[i + 1][0]["s"] == ty for i in range(f.argc))]
                if len(fs) > 1:
                    g = [f for f in fs if "State" in " ".join(f.locals[i + 1][0]["s"] for i in range(f.argc))]
                    called = {x for f in fs for x in self.p.callgraph()[f.id][1]}
                    fs = [f for f in (g or fs) if f.id not in called] or g or fs
                if fs:
                    (self.groups if issub else self.handlers)[name] = fs[0]
        self.main = self.p.fn("bin::main")
        if self.main is None:
            raise CheckError("bin::main not found")

    def codec(self, adt, encode):
        """The functions that turn an object into a value of the type, or back."""
        def head(s):
            return re.sub(r"^&('\w+ )?(mut )?", "", s).split("<")[0]
        out = []
        for f in self.p.fns.values():
            if f.derived or not f.blocks or f.argc != 1 or "::{closure" in f.id:
                continue
            a, r = f.locals[1][0]["s"], f.locals[0][0]["s"]
            if not r.startswith("std::result::Result<"):
                continue
            o = r[len("std::result::Result<"):].split(",")[0]
            a, o = head(a).split("::")[-1], head(o).split("::")[-1]
            if (a, o) == ((adt, "Object") if encode else ("Object", adt)):
                out.append(f)
        if not out:
            raise CheckError("no %s for %s found" % ("encoder" if encode else "decoder", adt))
        return out

    def decoders(self, adt):
        return self.codec(adt, False)

    def encoders(self, adt):
        return self.codec(adt, True)

    def recursive(self, fn):
        """The function below fn (or fn itself) that calls itself."""
        cg = self.p.callgraph()
        seen, todo = [], [fn.id]
        while todo:
            x = todo.pop(0)
            if x in seen or x not in cg:
                continue
            seen.append(x)
            todo.extend(sorted(cg[x][1]))
        for x in seen:
            if x.split("::")[:2] == fn.id.split("::")[:2] and "::{closure" not in x and x in self.p.reachable(list(cg[x][1])):
                return self.p.fn(x)
        return fn

    def handler(self, name):
        f = self.handlers.get(name)
        if f is None:
            raise CheckError("handler of command %s not found" % name)
        return f

    def local_roots(self):
        """Every function with a body that was written by hand."""
        out = []
        for f in self.p.fns.values():
            if f.derived or not f.blocks:
                continue
            if "_IMPL_" in f.id or f.d.get("trait", "").startswith(("structopt", "core::fmt", "serde", "core::error",
                                                                     "core::cmp", "core::clone", "core::hash")):
                continue
            if re.search(r"augment_clap|from_clap|is_subcommand|from_subcommand", f.id):
                continue
            out.append(f)
        return out

    def engine(self, mon, budget=1500000, cap=600):
        return Engine(self.p, mon, budget=budget, cap=cap)


class Mon(Monitor):
    """A monitor with a set of opaque functions and per-event callbacks."""

    def __init__(self, cut=(), on_call=None, on_result=None, on_ret=None, on_fact=None, on_agg=None, on_item=None,
                 on_end=None, cutp=None, init=frozenset()):
        self.cut = {f.id if hasattr(f, "id") else f for f in cut}
        self.cutp = cutp
        self.c, self.r, self.t, self.f, self.a, self.i, self.e = (on_call, on_result, on_ret, on_fact, on_agg, on_item,
                                                                  on_end)
        self.init = init

    def opaque(self, eng, fn):
        return fn.id in self.cut or (self.cutp is not None and self.cutp(eng, fn))

    def call(self, eng, st, ev):
        if self.c:
            self.c(eng, st, ev)

    def result(self, eng, st, ev, v):
        return self.r(eng, st, ev, v) if self.r else None

    def ret(self, eng, st, fn, ctx, v):
        if self.t:
            self.t(eng, st, fn, ctx, v)

    def fact(self, eng, st, v, val, eq):
        if self.f:
            self.f(eng, st, v, val, eq)

    def agg(self, eng, st, adt, variant, fields, span, sid):
        if self.a:
            self.a(eng, st, adt, variant, fields, span, sid)

    def item(self, eng, st, ev, it, v):
        return self.i(eng, st, ev, it, v) if self.i else None

    def end(self, eng, st, ev, it):
        if self.e:
            self.e(eng, st, ev, it)


def add(st, *tok):
    st.mon = st.mon | {tuple(tok)}


def drop(st, pred):
    st.mon = frozenset(t for t in st.mon if not pred(t))


def has(st, *tok):
    return tuple(tok) in st.mon


def fork(eng, st, v, tag=None):
    """An opaque Result becomes Ok(..) or Err(..).  [(st, value, ok?)]"""
    out = []
    for i in (0, 1):
        s2 = st.copy()
        if eng.assume(s2, mk("discr", v), eng.discr_of(RESULT, i)):
            out.append((s2, agg(RESULT, i, mk("v", v, i, 0)), i == 0))
    return out


def is_result(dty):
    return bool(dty) and dty["s"].startswith("std::result::Result<")


def err_type(s):
    """The error type of a Result type string."""
    d, last = 0, None
    inner = s[s.index("<") + 1:-1]
    for i, c in enumerate(inner):
        if c in "<([{":
            d += 1
        elif c in ")]}":
            d -= 1
        elif c == ">" and inner[i - 1] != "-":
            d -= 1
        elif c == "," and d == 0:
            last = i
    return inner[last + 1:].strip() if last is not None else ""


def self_type(ev):
    """Head of the type a trait method is called on."""
    a = ev.callee.args
    t = ev.tyenv.get(a[0], a[0]) if a else ""
    t = re.sub(r"^(&('\w+ )?(mut )?)+", "", t)
    return t.split("<")[0].split("::")[-1]


# calls whose result is (the content of) their first argument
PASS = re.compile(
    r"^(std::(slice|str|vec::Vec|string::String|path::Path|path::PathBuf|ffi::OsStr|ffi::OsString|borrow::Cow|boxed::Box)::"
    r"(to_vec|to_owned|to_string|as_ref|as_slice|as_bytes|as_str|as_path|into_owned|to_path_buf|into_boxed_slice|"
    r"into_vec|into_bytes|as_os_str|to_os_string|into_os_string|into_string|iter)|"
    r"std::mem::(take|replace)|std::option::Option::(take|as_deref|as_ref|cloned|copied)|"
    r"(ToSql|ToString|ToOwned|Clone|Into|From|AsRef|Borrow|Deref)::\w+|"
    r"serde_bytes::(bytebuf::)?ByteBuf::\w+|snapcd::object::Object::into_owned)$")


def strip(eng, v, d=0):
    """The set of terms a value is a copy of."""
    if d > 20:
        return {v}
    k = v[0]
    if k == "conv":
        return strip(eng, v[1], d + 1)
    if k == "or":
        out = set()
        for x in v[1]:
            out |= strip(eng, x, d + 1)
        return out
    if k in ("r", "o"):
        s = eng.sites[v[1]]
        full = s.name in ("Index::index", "IndexMut::index_mut") and any(
            len(a) > 1 and (a[1][0] == "c" and "RangeFull" in repr(a[1]) or a[1][0] == "agg" and str(a[1][1]).endswith("RangeFull")) for a in s.args)
        if full or PASS.match(s.name):
            out = set()
            for a in s.args:
                if a:
                    out |= strip(eng, a[0], d + 1)
            return out or {v}
    if k == "agg" and v[1] == OPTION and v[2] == 1 and v[3][0][0] == "v" and v[3][0][2:] == (1, 0):
        return strip(eng, v[3][0][1], d + 1)
    if k == "f" and v[2] == "[..]":
        return strip(eng, v[1], d + 1)
    if k == "agg" and v[1] == COW and v[3]:
        return strip(eng, v[3][0], d + 1)
    return {v}


def param(fn, i, *path):
    """The term of the i-th parameter of a root function, or a field of it."""
    v = mk("p", fn.id, i)
    for f in path:
        v = mk("f", v, f)
    return v


def within(eng, v, roots):
    """Does v derive from one of the given terms?"""
    o = eng.origins(v)
    return any(r in o for r in roots)


# ---------------------------------------------------------------- evidence
LEVEL = "other"


def write_evidence(ck, wall, rule, assumptions, extra=None):
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    cov = {
        "explanation": rule,
        "functions_analysed": len(ck.fns),
        "functions": sorted(ck.fns)[:60],
        "call_sites_analysed": len(ck.sites),
        "abstract_steps": ck.steps,
        "abstract_outcomes": ck.paths,
        "obligations": sum(ck.obl.values()),
        "obligations_by_rule": dict(ck.obl),
        "samples": ck.samples,
        "notes": ck.notes,
    }
    if extra:
        cov.update(extra)
    ev = {
        "property": ck.pid,
        "tier": ck.tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": LEVEL,
        "coverage": cov,
        "assumptions": assumptions,
        "wall_s": round(wall, 3),
        "violations": len(ck.viol),
    }
    tmp = os.path.join(d, ".%s.%d.tmp" % (ck.pid, os.getpid()))
    with open(tmp, "w") as fh:
        json.dump(ev, fh, indent=1)
    os.replace(tmp, os.path.join(d, ck.pid + ".json"))
