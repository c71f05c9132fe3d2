"""C35: what a repository already holds stays readable."""
from . import base32, codec, keys
from .codec import ATTRS, FSITEM, ITEMTYPE, OBJECT, fields_of, text
from ..core import *
from .prov import *
from .. import sqluse

KEY = "snapcd::key::Key"
OBJTYPE = "snapcd::object::ObjType"
# What is found in repositories that exist already. These are facts about data
# that was written before, so they do not follow the code.
NAMES = {
    OBJECT: ("data", "keys", "objtype"),
    OBJTYPE: ("FileBlobTree", "FileBlob", "Commit", "FSItemDir", "FSItemFile"),
    FSITEM: ("size", "itemtype", "children_names"),
    ITEMTYPE: ("Dir", "File"),
    ATTRS: ("message", "extra"),
    KEY: ("Blake3B",),
}
FORMS = {(FSITEM, "size"): "u64", (FSITEM, "children_names"): "Vec<String>", (ATTRS, "message"): "String", (OBJECT, "data"): "ByteBuf", (KEY, "Blake3B"): "[u8; 32]", (ATTRS, "extra"): "HashMap<?>"}
TABLES = {"data": ("key", "value"), "state": ("key", "value"), "reflog": ("id", "refname", "remote", "key")}
ON = {"raw_get": "data", "raw_put": "data", "raw_exists": "data", "raw_between": "data", "raw_get_state": "state", "raw_put_state": "state",
      "reflog_get": "reflog", "reflog_push": "reflog", "reflog_walk": "reflog"}
ALPHABET = "abcdefghijklmnopqrstuvwxyz234567"
FOLDER, FILE, HEAD = ".snapcd", "snapcd.db", "HEAD"




def C35(an, ck):
    n = Seen()
    names(an, ck, n)
    keyforms(an, ck, n)
    tables(an, ck, n)
    places(an, ck, n)
    ck.notes[:] = list(dict.fromkeys(ck.notes))
    n.into(ck)


def kind(t):
    """What a type looks like when it is stored, or None."""
    t = t.strip()
    m = re.match(r"^(?:[\w]+::)*(\w+)(<(.*)>)?$", t)
    if re.match(r"^\[(.*); .*\]$|^\[(.*)\]$", t):
        m = re.match(r"^\[(.*?)(; .*)?\]$", t)
        x = kind(m.group(1))
        return x and "a list of " + x
    if not m:
        return None
    h = m.group(1)
    if re.match(r"^[ui](8|16|32|64|128|size)$", h):
        return "numbers"
    if h in ("String", "str", "PathBuf", "Path"):
        return "text"
    if h in ("OsString", "OsStr"):
        return "the system's own form of text"
    if h in ("ByteBuf", "Bytes"):
        return "bytes"
    if h in ("HashMap", "BTreeMap"):
        return "a map"
    if h in ("Vec", "VecDeque", "HashSet", "BTreeSet") and m.group(3):
        x = kind(re.sub(r", .*", "", m.group(3)))
        return x and "a list of " + x
    if h in ("Box", "Rc", "Arc", "Cow") and m.group(3):
        return kind(re.sub(r"^'\w+, ", "", m.group(3)))
    if h in ("bool", "f32", "f64", "char"):
        return h
    return None


def sub(ck, run):
    """Runs another rule's analysis for what it finds out; what it complains about is its own business."""
    c = Ck(ck.pid, ck.tier)
    r = run(c)
    ck.fns |= c.fns
    ck.sites |= c.sites
    ck.steps += c.steps
    ck.paths += c.paths
    return r


def names(an, ck, n):
    info = sub(ck, lambda c: codec.serde_tables(an, c, Seen()))
    for adt, want in NAMES.items():
        nm = adt.split("::")[-1]
        t = info.get(adt)
        if t is None:
            ck.notes.append("%s: how it is encoded was not recognised" % nm)
            continue
        what = "variant" if t["enum"] else "field"
        have = [v[0] for v in an.adts[adt]["v"]] if t["enum"] else fields_of(an, adt)
        for k, fs in sorted(t["forms"].items()):
            for f in sorted(fs):
                n.hit("forms of stored data", adt, k, f)
                g = re.sub(r"&('\w+ )?(mut )?", "", f)
                if adt == KEY and k == "*" and f in ("serialize_struct_variant", "serialize_tuple_variant", "serialize_unit_variant"):
                    ck.bad("form of %s" % nm, "keys are stored in another form (%s) than in existing objects, where a variant directly holds its bytes" % f, t["at"])
                a, b = kind(g), kind(FORMS.get((adt, k), "?"))
                if a is not None and b is not None and a != b:
                    ck.bad("form of %s.%s" % (nm, k), "%s of %s is stored as %s, in existing objects it is %s" % (k, nm, a, b), t["at"])
        if not t["reads"]:
            ck.notes.append("%s: the names it is decoded from were not recognised" % nm)
            continue
        for k in want:
            n.hit("names of stored data", adt, k)
            got = {y for i in t["reads"].get(k, ()) for y in t["lands"].get(i, ())}
            if not got:
                ck.bad("%s.%s" % (nm, k), "the %s stored as '%s' in existing objects is not read as any %s of %s" % (what, k, what, nm), t["at"])
            elif k in have and got != {k}:
                ck.bad("%s.%s" % (nm, k), "the %s stored as '%s' in existing objects is read as %s" % (what, k, "/".join(sorted(got))), t["at"])
        if not t["enum"]:
            old = {y for k in want for i in t["reads"].get(k, ()) for y in t["lands"].get(i, ())}
            for x in have:
                if x not in old and x not in t["dflt"] and x not in t["skip"] and x in t["written"]:
                    ck.bad("new field %s.%s" % (nm, x), "%s cannot be read without the field %s, which existing objects do not have" % (nm, x), t["at"])
    # the order of the keys of a commit
    for fn in an.decoders("Commit"):
        order(an, ck, n, fn)


def order(an, ck, n, fn):
    """The tree comes first among the keys of a commit."""
    tree = fields_of(an, codec.COMMIT).index(an.field(codec.COMMIT, "tree")) if not isinstance(an.field(codec.COMMIT, "tree"), int) else an.field(codec.COMMIT, "tree")
    keysof = fields_of(an, OBJECT).index("keys") if "keys" in fields_of(an, OBJECT) else None

    def first(eng, v):
        """Is v the first (True) or another element (False) of the keys of the object; None if this is not known."""
        out = set()
        for x in roots(eng, v):
            if x[0] == "f" and x[2] == "[]":
                i = keys.number(eng, x[3]) if len(x) > 3 and type(x[3]) is T else x[3] if len(x) > 3 else None
                out.add(None if i is None else i == 0)
            elif x[0] in ("v", "f") and x[1][0] in ("r", "o") or x[0] in ("r", "o"):
                y = x if x[0] in ("r", "o") else x[1]
                m = last(name_of(eng, y))
                if m in ("remove", "swap_remove", "get", "nth", "index") and all(len(a) > 1 for a in call_args(eng, y)):
                    ks = {keys.number(eng, a[1]) for a in call_args(eng, y)}
                    out.add(None if len(ks) != 1 or None in ks else ks == {0})
                elif m in ("first", "split_first"):
                    out.add(True)
                elif m in ("pop", "last", "split_last", "next_back", "pop_back"):
                    out.add(False)
                else:
                    out.add(None)
            else:
                out.add(None)
        return next(iter(out)) if len(out) == 1 else None

    def on_agg(eng, st, adt, var, a, span, ctx):
        if adt == codec.COMMIT:
            n.hit("commits decoded", str(span))
            if first(eng, a[3][tree]) is False:
                ck.bad("tree of a commit", "%s takes the tree from another place than the first of the keys, where existing commits have it" % fn.pretty(), str(span))
    e = an.engine(Mon(on_agg=on_agg))
    ck.absorb(e, e.run(fn.id))


def keyforms(an, ck, n):
    todb, fromdb = an.assoc("Key", "as_db_key"), an.assoc("Key", "from_db_key")
    fromuser = an.tm("Keyish", "FromStr", "from_str")
    names = [v[0] for v in an.adts[KEY]["v"]]
    ids = sub(ck, lambda c: keys.build(an, c, Seen(), todb, "the database form of a key", False))
    back = sub(ck, lambda c: keys.parse_db(an, c, Seen(), fromdb))
    pairs = sub(ck, lambda c: keys.parse_user(an, c, Seen(), fromuser, ids))
    b3 = next((i for i, x in enumerate(names) if x == "Blake3B"), 0)
    if back:
        n.hit("key forms", "database", 1)
        if back.get(1) != {b3}:
            ck.bad("type id 1", "type id 1, which existing keys have, is read as %s" % ("/".join(sorted(names[i] for i in back.get(1, ()))) or "nothing"), fromdb.span)
    else:
        ck.notes.append("%s: the type ids it knows were not recognised" % fromdb.pretty())
    if pairs:
        n.hit("key forms", "prefix", "b")
        got = pairs.get(ord("b"), pairs.get("b", ()))
        if set(got) != {1}:
            ck.bad("prefix b", "the prefix b, which keys were shown with, is turned into %s" % ("type id " + "/".join(map(str, sorted(got))) if got else "nothing"), fromuser.span)
    else:
        ck.notes.append("%s: the prefixes it knows were not recognised" % fromuser.pretty())
    dec = an.fn("snapcd::base32::from_base32")
    t = sub(ck, lambda c: base32.decode(an, c, Seen(), dec))
    if t is None:
        ck.notes.append("%s: the table of letters was not recognised" % dec.pretty())
    else:
        n.hit("key forms", "letters", t)
        if t.lower() != ALPHABET.encode():
            ck.bad("letters", "%s reads letters by another table than the keys shown so far were written with" % dec.pretty(), dec.span)


def cols(x):
    """The columns an expression of a statement uses."""
    out = set()
    todo = [x]
    while todo:
        y = todo.pop()
        if isinstance(y, (tuple, list)):
            if len(y) == 2 and y[0] == "col" and isinstance(y[1], str):
                out.add(y[1])
            else:
                todo += list(y)
        elif isinstance(y, dict):
            todo += list(y.values())
    return out


def tables(an, ck, n):
    uses = sqluse.collect(an, ck)[0]
    sch = {}
    stm = [(u, s) for u in uses for s in u.stmts if sqluse.owner(u) == "ds"]
    for u, s in stm:
        if s["k"] == "create" and s["obj"] == "TABLE":
            sch.setdefault(s["name"], (s, u))
    if any(s["k"] == "?" and {"ALTER", "VIEW"} & {str(w).upper() for w in s.get("words", ())} for _, s in stm):
        ck.notes.append("the tables are changed by the program itself (ALTER or a view); their names are not judged")
        return
    for u, s in stm:
        m = last(u.root.short)
        t = s.get("from") if s["k"] == "select" else s.get("table")
        if s["k"] in ("create", "trans", "pragma", "?") or t is None:
            continue
        n.hit("statements", m, u.text)
        at = (u.ev.span, u.eng.chain(u.ev.ctx))
        if m in ON and t not in TABLES and not any(s2 is not s and u2.root.id == u.root.id and (s2.get("from") or s2.get("table")) == ON[m] for u2, s2 in stm):
            ck.bad("table of %s" % m, "%s works on the table %s; existing repositories have this in %s" % (u.root.pretty(), t, ON[m]), *at)
        if m in ON and t in TABLES and t != ON[m]:
            ck.bad("table of %s" % m, "%s works on the table %s; existing repositories have this in %s" % (u.root.pretty(), t, ON[m]), *at)
        if t not in TABLES:
            continue
        used = cols(s.get("cols") if s["k"] == "select" else None) | cols(s.get("where")) | cols(s.get("order"))
        if s["k"] == "insert" and s.get("cols"):
            used |= set(s["cols"])
        for c in sorted(used):
            if c.lower() not in TABLES[t] and c.lower() not in ("rowid", "oid", "_rowid_", "*"):
                ck.bad("column %s of %s" % (c, t), "%s uses the column %s, which the table %s of existing repositories does not have" % (u.root.pretty(), c, t), *at)
        if s["k"] == "insert" and not s.get("cols"):
            have = tuple(sch[t][0]["cols"]) if t in sch else None
            if have is not None and tuple(c.lower() for c in have) != TABLES[t]:
                ck.bad("columns of %s" % t, "%s fills the columns of %s by their place, which is another one in existing repositories" % (u.root.pretty(), t), *at)


def places(an, ck, n):
    # the folder, the file and the name of HEAD
    cg = an.p.callgraph()
    found = {}
    for fid in sorted(cg):
        for c, g, sp in cg[fid][0]:
            if c is not None and re.search(r"::(default_value|default_value_os)$", c.name):
                f = an.p.fn(fid)

                def on_call(eng, st, ev):
                    if re.search(r"::(default_value|default_value_os)$", ev.name) and len(ev.args) > 1:
                        for x in roots(eng, ev.args[1]):
                            found.setdefault(text(x), (ev.span, ()))
                e = an.engine(Mon(on_call=on_call, cutp=lambda eng, g: g.id != f.id))
                ck.absorb(e, e.run(fid))
                break
    if not found or "?" in found:
        ck.notes.append("the default name of the repository's folder was not recognised")
    else:
        n.hit("places", "folder")
        if FOLDER not in found:
            ck.bad("folder", "the repository is looked for in %s, existing ones are in %s" % ("/".join(sorted(found)), FOLDER), *next(iter(found.values())))
    new = an.assoc("SqliteDS", "new")
    reach = {}

    def out(eng, f):
        if f.id not in reach:
            reach[f.id] = new.id in an.p.reachable([f.id])
        return f.id == new.id or not reach[f.id]

    def opened(eng, st, ev):
        if ev.local is not None and ev.local.id == new.id and ev.args:
            ts = {text(x) for x in eng.origins(ev.args[0]) if x[0] == "c" and x[1] == "bytes"}
            if not ts:
                ck.notes.append("the name of the database file opened in %s was not recognised" % ev.fn.pretty())
                return
            n.hit("places", "file", str(ev.span))
            if not any(t.split("/")[-1] == FILE for t in ts):
                ck.bad("database file in %s" % ev.fn.short, "%s opens %s, in existing repositories the database is %s" % (ev.fn.pretty(), "/".join(sorted(ts)), FILE), ev.span, eng.chain(ev.ctx))
    e = an.engine(Mon(on_call=opened, cutp=out))
    ck.absorb(e, e.run(an.main.id))
    get, raw = an.ds("get_head"), an.ds("raw_get_state")

    def looked(eng, st, ev):
        if ev.tm and ev.tm[1] == "raw_get_state" or ev.local is not None and ev.local.id == raw.id:
            ts = {text(x) for x in roots(eng, ev.args[1])}
            if "?" in ts or not ts:
                ck.notes.append("the name HEAD is looked up under was not recognised")
                return
            n.hit("places", "HEAD")
            if ts != {HEAD}:
                ck.bad("name of HEAD", "HEAD is looked up as %s, in existing repositories it is stored as %s" % ("/".join(sorted(ts)), HEAD), ev.span)
    e = an.engine(Mon(on_call=looked, cut=[raw]))
    ck.absorb(e, e.run(get.id))
