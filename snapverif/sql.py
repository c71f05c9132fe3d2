"""A small reader for the SQL texts of the program."""
import re


class SqlError(Exception):
    pass


TOK = re.compile(r"\s+|--[^\n]*|/\*.*?\*/|(?P<s>'(?:[^']|'')*')|(?P<q>\"[^\"]*\"|`[^`]*`|\[[^\]]*\])"
                 r"|(?P<n>\d+(?:\.\d+)?)|(?P<p>\?\d*|[:@$]\w+)|(?P<w>[A-Za-z_]\w*)|(?P<o><=|>=|<>|!=|==|\|\||[-+*/%<>=(),.;&|~])",
                 re.S)


def tokens(s):
    out, i = [], 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise SqlError("cannot read SQL at %r" % s[i:i + 20])
        i = m.end()
        k = m.lastgroup
        if k is None:
            continue
        t = m.group(k)
        if k == "w":
            out.append(("w", t.upper(), t))
        elif k == "q":
            out.append(("w", t[1:-1].upper(), t[1:-1]))
        else:
            out.append((k, t, t))
    return out


def statements(s):
    out, cur = [], []
    for t in tokens(s):
        if t[0] == "o" and t[1] == ";":
            if cur:
                out.append(cur)
            cur = []
        else:
            cur.append(t)
    if cur:
        out.append(cur)
    return out


class P:
    def __init__(self, ts):
        self.t, self.i, self.np = ts, 0, 0

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def take(self, *w):
        if self.peek() in w:
            self.i += 1
            return self.t[self.i - 1][1]
        return None

    def need(self, *w):
        x = self.take(*w)
        if x is None:
            raise SqlError("expected %s, found %s" % ("/".join(w), self.peek()))
        return x

    def name(self):
        if self.kind() != "w":
            raise SqlError("name expected, found %s" % self.peek())
        self.i += 1
        n = self.t[self.i - 1][2].lower()
        if self.peek() == ".":
            self.i += 1
            n = self.t[self.i][2].lower()
            self.i += 1
        return n

    def param(self):
        k, t, _ = self.t[self.i]
        self.i += 1
        if t == "?":
            self.np += 1
            return ("param", self.np)
        if t[0] == "?":
            self.np = max(self.np, int(t[1:]))
            return ("param", int(t[1:]))
        return ("param", t)

    # expressions, by precedence
    def expr(self):
        return self.orx()

    def orx(self):
        a = self.andx()
        while self.take("OR"):
            a = ("or", a, self.andx())
        return a

    def andx(self):
        a = self.notx()
        while self.take("AND"):
            a = ("and", a, self.notx())
        return a

    def notx(self):
        if self.take("NOT"):
            return ("not", self.notx())
        return self.cmp()

    def cmp(self):
        a = self.add()
        while True:
            o = self.peek()
            if o in ("=", "==", "<", "<=", ">", ">=", "<>", "!="):
                self.i += 1
                a = ("=" if o == "==" else ("!=" if o == "<>" else o), a, self.add())
            elif o == "IS":
                self.i += 1
                n = self.take("NOT")
                if self.peek() == "DISTINCT":
                    raise SqlError("IS DISTINCT")
                a = ("isnot" if n else "is", a, self.add())
            elif o in ("LIKE", "GLOB", "REGEXP", "MATCH"):
                self.i += 1
                a = ("like", a, self.add())
            elif o == "BETWEEN":
                self.i += 1
                x = self.add()
                self.need("AND")
                a = ("between", a, x, self.add())
            elif o == "COLLATE":
                self.i += 1
                a = ("collate", a, self.name())
            elif o in ("ISNULL", "NOTNULL"):
                self.i += 1
                a = ("is" if o == "ISNULL" else "isnot", a, ("null",))
            else:
                return a

    def add(self):
        a = self.atom()
        while self.peek() in ("+", "-", "*", "/", "%", "||", "&", "|"):
            o = self.t[self.i][1]
            self.i += 1
            a = ("op" + o, a, self.atom())
        return a

    def atom(self):
        k = self.kind()
        if k == "p":
            return self.param()
        if k == "n":
            self.i += 1
            return ("num", self.t[self.i - 1][1])
        if k == "s":
            self.i += 1
            return ("str", self.t[self.i - 1][1][1:-1])
        if self.take("("):
            if self.peek() == "SELECT":
                s = self.select()
                self.need(")")
                return ("sub", s)
            e = self.expr()
            self.need(")")
            return e
        if self.take("-"):
            return ("neg", self.atom())
        if self.take("NULL"):
            return ("null",)
        if self.take("*"):
            return ("*",)
        if self.take("EXISTS"):
            self.need("(")
            s = self.select()
            self.need(")")
            return ("exists", s)
        if self.take("CAST"):
            self.need("(")
            e = self.expr()
            self.need("AS")
            self.name()
            self.need(")")
            return ("cast", e)
        if k == "w":
            n = self.name()
            if self.take("("):
                self.take("DISTINCT")
                args = []
                while not self.take(")"):
                    args.append(self.expr())
                    self.take(",")
                return ("fn", n, tuple(args))
            return ("col", n)
        raise SqlError("unexpected %s" % self.peek())

    def select(self):
        self.need("SELECT")
        d = {"k": "select", "distinct": bool(self.take("DISTINCT")), "cols": [], "from": None, "where": None,
             "order": [], "limit": None, "group": None}
        while True:
            e = self.expr()
            if self.take("AS"):
                self.name()
            d["cols"].append(e)
            if not self.take(","):
                break
        if self.take("FROM"):
            d["from"] = self.name()
            if self.take("AS"):
                self.name()
            if self.peek() in (",", "JOIN", "LEFT", "INNER", "CROSS", "NATURAL"):
                raise SqlError("join")
        if self.take("WHERE"):
            d["where"] = self.expr()
        if self.take("GROUP"):
            raise SqlError("group")
        if self.take("ORDER"):
            self.need("BY")
            while True:
                e = self.expr()
                o = self.take("ASC", "DESC") or "ASC"
                d["order"].append((e, o))
                if not self.take(","):
                    break
        if self.take("LIMIT"):
            d["limit"] = self.expr()
            if self.take("OFFSET", ","):
                raise SqlError("offset")
        if self.peek() in ("UNION", "EXCEPT", "INTERSECT"):
            raise SqlError("compound select")
        return d

    def statement(self):
        w = self.peek()
        if w == "SELECT":
            d = self.select()
        elif w in ("INSERT", "REPLACE"):
            self.i += 1
            conf = "REPLACE" if w == "REPLACE" else None
            if self.take("OR"):
                conf = self.need("IGNORE", "REPLACE", "ABORT", "FAIL", "ROLLBACK")
            self.need("INTO")
            d = {"k": "insert", "conflict": conf, "table": self.name(), "cols": None, "values": None}
            if self.take("("):
                d["cols"] = []
                while not self.take(")"):
                    d["cols"].append(self.name())
                    self.take(",")
            self.need("VALUES")
            self.need("(")
            d["values"] = []
            while not self.take(")"):
                d["values"].append(self.expr())
                self.take(",")
            if self.take(","):
                raise SqlError("several rows")
            if self.take("ON"):
                self.need("CONFLICT")
                if self.take("("):
                    while not self.take(")"):
                        self.i += 1
                self.need("DO")
                d["conflict"] = {"NOTHING": "IGNORE", "UPDATE": "REPLACE"}[self.need("NOTHING", "UPDATE")]
                if d["conflict"] == "REPLACE":
                    self.need("SET")
                    d["set"] = []
                    while True:
                        c = self.name()
                        self.need("=")
                        d["set"].append((c, self.expr()))
                        if not self.take(","):
                            break
                    if self.take("WHERE"):
                        self.i = len(self.t)
        elif w == "UPDATE":
            self.i += 1
            if self.take("OR"):
                self.need("IGNORE", "REPLACE", "ABORT", "FAIL", "ROLLBACK")
            d = {"k": "update", "table": self.name()}
            self.i = len(self.t)
        elif w == "DELETE":
            self.i += 1
            self.need("FROM")
            d = {"k": "delete", "table": self.name()}
            self.i = len(self.t)
        elif w in ("BEGIN", "COMMIT", "END", "ROLLBACK", "SAVEPOINT", "RELEASE"):
            d = {"k": "trans", "op": {"END": "COMMIT"}.get(w, w)}
            self.i = len(self.t)
        elif w == "CREATE":
            d = self.create()
        elif w == "DROP" or w == "ALTER":
            k = w.lower()
            obj = self.peek(1)
            self.i += 2
            if self.take("IF"):
                self.need("EXISTS")
            d = {"k": k, "obj": obj, "table": self.name() if self.kind() == "w" else None}
            self.i = len(self.t)
        elif w == "PRAGMA":
            self.i += 1
            n = self.name()
            v = None
            if self.take("=", "("):
                v = self.t[self.i][2] if self.i < len(self.t) else None
            d = {"k": "pragma", "name": n, "value": v.strip("'\"").lower() if v else None}
            self.i = len(self.t)
        else:
            d = {"k": (w or "").lower()}
            self.i = len(self.t)
        if self.i != len(self.t):
            raise SqlError("trailing text at %s" % self.peek())
        d["params"] = self.np
        return d

    def create(self):
        self.need("CREATE")
        self.take("TEMP", "TEMPORARY")
        uniq = self.take("UNIQUE")
        obj = self.need("TABLE", "INDEX", "TRIGGER", "VIEW")
        ine = False
        if self.take("IF"):
            self.need("NOT")
            self.need("EXISTS")
            ine = True
        name = self.name()
        d = {"k": "create", "obj": obj, "name": name, "ine": ine, "cols": [], "pk": [], "unique": [], "autoinc": False,
             "uniqueindex": bool(uniq)}
        if obj == "INDEX":
            self.need("ON")
            d["table"] = self.name()
            self.i = len(self.t)
            return d
        if obj != "TABLE":
            self.i = len(self.t)
            return d
        self.need("(")
        depth, cur, items = 0, [], []
        while True:
            if self.i >= len(self.t):
                raise SqlError("unclosed table definition")
            t = self.t[self.i]
            self.i += 1
            if t[1] == "(":
                depth += 1
            if t[1] == ")":
                if depth == 0:
                    items.append(cur)
                    break
                depth -= 1
            if t[1] == "," and depth == 0:
                items.append(cur)
                cur = []
                continue
            cur.append(t)
        for it in items:
            if not it:
                continue
            ws = [t[1] for t in it]
            if ws[0] in ("PRIMARY", "UNIQUE", "CHECK", "FOREIGN", "CONSTRAINT"):
                if "PRIMARY" in ws or "UNIQUE" in ws:
                    cols = [t[2].lower() for t in it[ws.index("(") + 1:ws.index(")")] if t[0] == "w" and t[1] not in ("ASC", "DESC")]
                    (d["pk"] if "PRIMARY" in ws else d["unique"]).append(tuple(cols))
                continue
            c = it[0][2].lower()
            d["cols"].append(c)
            d.setdefault("defs", {})[c] = ws[1:]
            if "PRIMARY" in ws:
                d["pk"].append((c,))
                d["pktype"] = ws[1] if len(ws) > 1 else ""
            if "UNIQUE" in ws:
                d["unique"].append((c,))
            if "AUTOINCREMENT" in ws:
                d["autoinc"] = True
        d["norowid"] = [t[1] for t in self.t[self.i:]] == ["WITHOUT", "ROWID"]
        self.i = len(self.t)
        return d


def parse(s):
    out = []
    for t in statements(s):
        try:
            out.append(P(t).statement())
        except (SqlError, IndexError, KeyError) as x:
            # not understood: the rules decide whether that matters
            out.append({"k": "?", "verb": t[0][1], "words": [w[2].lower() for w in t if w[0] == "w"], "err": str(x),
                        "params": sum(1 for w in t if w[1].startswith("?"))})
    return out


def conj(e):
    """The conjuncts of a condition."""
    if e is None:
        return []
    if e[0] == "and":
        return conj(e[1]) + conj(e[2])
    if e[0] == "between":
        return [(">=", e[1], e[2]), ("<=", e[1], e[3])]
    return [e]


FLIP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "=": "=", "is": "is", "!=": "!=", "isnot": "isnot"}


def colparam(e):
    """(op, column, param index) of a simple condition, or None."""
    if e[0] in FLIP and len(e) == 3:
        a, b = e[1], e[2]
        if a[0] == "col" and b[0] == "param":
            return (e[0], a[1], b[1])
        if a[0] == "param" and b[0] == "col":
            return (FLIP[e[0]], b[1], a[1])
    return None
