"""Parser for the SQL statements embedded in the source (no database is involved)."""
import re

TOK = re.compile(r"""\s+|--[^\n]*|(?P<num>\d+(\.\d+)?)|(?P<str>'(?:[^']|'')*')|(?P<par>\?\d*|[$:@]\w+)|
(?P<id>\w+|"[^"]*"|`[^`]*`|\[[^\]]*\])|(?P<op><=|>=|<>|!=|==|\|\||[-+*/%(),;=<>.])""", re.X)
KW = set("""select from where order by limit offset and or not in like glob is null insert into values on conflict delete
create table index unique drop if exists asc desc as distinct escape set update collate using join between""".split())


class SqlError(Exception):
    pass


class P:
    def __init__(self, text):
        self.text = text
        self.t = []
        i = 0
        while i < len(text):
            m = TOK.match(text, i)
            if not m:
                raise SqlError("unexpected %r" % text[i:i + 20])
            i = m.end()
            if m.lastgroup:
                k = m.lastgroup
                v = m.group(k)
                if k == "id":
                    if v[0] in "\"`[":
                        v, k = v[1:-1].lower(), "name"
                    else:
                        v = v.lower()
                self.t.append((k, v))
        self.i = 0
        self.params = {}
        self.maxp = 0

    def peek(self, n=0):
        return self.t[self.i + n] if self.i + n < len(self.t) else ("eof", "")

    def word(self):
        k, v = self.peek()
        return v if k in ("id", "op") else None

    def take(self, *ws):
        """Consumes the given words when they come next."""
        for n, w in enumerate(ws):
            k, v = self.peek(n)
            if k not in ("id", "op") or v != w:
                return False
        self.i += len(ws)
        return True

    def need(self, *ws):
        if not self.take(*ws):
            raise SqlError("expected %s at %s in %r" % (" ".join(ws), self.peek(), self.text))

    def name(self):
        k, v = self.peek()
        if k not in ("id", "name"):
            raise SqlError("expected a name at %s in %r" % (self.peek(), self.text))
        self.i += 1
        return v

    def names(self):
        self.need("(")
        out = []
        while True:
            n = self.name()
            if self.take("collate"):
                self.name()
            if not self.take("desc"):
                self.take("asc")
            out.append(n)
            if not self.take(","):
                break
        self.need(")")
        return out

    def param(self, v):
        if v == "?":
            self.maxp += 1
            return ("param", self.maxp)
        if v[0] == "?":
            n = int(v[1:])
            self.maxp = max(self.maxp, n)
            return ("param", n)
        if v not in self.params:
            self.maxp += 1
            self.params[v] = self.maxp
        return ("param", self.params[v])

    # ------------------------------------------------ expressions
    def expr(self):
        a = [self.conj()]
        while self.take("or"):
            a.append(self.conj())
        return a[0] if len(a) == 1 else ("or",) + tuple(a)

    def conj(self):
        a = [self.neg()]
        while self.take("and"):
            a.append(self.neg())
        return a[0] if len(a) == 1 else ("and",) + tuple(a)

    def neg(self):
        if self.take("not"):
            return ("not", self.neg())
        return self.cmp()

    def cmp(self):
        a = self.add()
        while True:
            neg = False
            if self.peek() == ("id", "not") and self.peek(1)[1] in ("in", "like", "glob", "between"):
                self.i += 1
                neg = True
            if self.take("in"):
                self.need("(")
                if self.word() == "select":
                    r = ("in", a, self.select())
                elif self.word() == ")":
                    r = ("in", a, ())
                else:
                    xs = [self.expr()]
                    while self.take(","):
                        xs.append(self.expr())
                    r = ("in", a, tuple(xs))
                self.need(")")
            elif self.word() in ("like", "glob"):
                op = self.name()
                b = self.add()
                esc = self.add() if self.take("escape") else None
                r = (op, a, b, esc)
            elif self.take("between"):
                lo = self.add()
                self.need("and")
                r = ("between", a, lo, self.add())
            elif self.take("is", "not"):
                r = ("not", ("is", a, self.add()))
            elif self.take("is"):
                r = ("is", a, self.add())
            elif self.word() in ("=", "==", "<>", "!=", "<", ">", "<=", ">="):
                op = self.word()
                self.i += 1
                r = ({"==": "=", "!=": "<>"}.get(op, op), a, self.add())
            elif self.take("collate"):
                r = ("collate", a, self.name())
            else:
                return a
            a = ("not", r) if neg else r

    def add(self):
        a = self.prim()
        while self.word() in ("+", "-", "*", "/", "%", "||"):
            op = self.word()
            self.i += 1
            a = (op, a, self.prim())
        return a

    def prim(self):
        k, v = self.peek()
        if k == "num":
            self.i += 1
            return ("num", float(v) if "." in v else int(v))
        if k == "str":
            self.i += 1
            return ("str", v[1:-1].replace("''", "'"))
        if k == "par":
            self.i += 1
            return self.param(v)
        if self.take("-"):
            x = self.prim()
            return ("num", -x[1]) if x[0] == "num" else ("neg", x)
        if self.take("("):
            if self.word() == "select":
                r = ("sub", self.select())
            else:
                r = self.expr()
            self.need(")")
            return r
        if self.take("*"):
            return ("star",)
        if self.take("null"):
            return ("null",)
        if self.take("exists"):
            self.need("(")
            r = ("exists", self.select())
            self.need(")")
            return r
        n = self.name()
        if self.take("("):
            xs = []
            if not self.take(")"):
                xs.append(self.expr())
                while self.take(","):
                    xs.append(self.expr())
                self.need(")")
            return ("call", n) + tuple(xs)
        if self.take("."):
            if self.take("*"):
                return ("star",)
            return ("col", self.name(), n)
        return ("col", n)

    # ------------------------------------------------ statements
    def select(self):
        self.need("select")
        d = {"k": "select", "distinct": self.take("distinct"), "from": [], "on": [], "where": None, "order": (),
             "limit": None, "offset": None}
        cols = []
        while True:
            e = self.expr()
            if self.take("as"):
                self.name()
            cols.append(e)
            if not self.take(","):
                break
        d["cols"] = tuple(cols)
        if self.take("from"):
            while True:
                t = self.name()
                alias = t
                if self.take("as"):
                    alias = self.name()
                elif self.peek()[0] == "id" and self.peek()[1] not in KW | {"inner", "left", "cross", "group"}:
                    alias = self.name()
                d["from"].append((t, alias))
                if self.take(","):
                    continue
                self.take("inner")
                if self.take("join"):
                    continue
                break_ = True
                if self.take("on"):
                    d["on"].append(self.expr())
                elif self.take("using"):
                    for c in self.names():
                        d["on"].append(("=", ("col", c), ("col", c)))
                self.take("inner")
                if self.take("join"):
                    break_ = False
                if break_:
                    break
        if self.take("where"):
            d["where"] = self.expr()
        if self.take("group"):
            self.need("by")
            d["group"] = [self.expr()]
            while self.take(","):
                d["group"].append(self.expr())
        if self.take("order", "by"):
            o = []
            while True:
                e = self.expr()
                o.append((e, "desc" if self.take("desc") else ("asc" if self.take("asc") or True else "")))
                if not self.take(","):
                    break
            d["order"] = tuple(o)
        if self.take("limit"):
            d["limit"] = self.expr()
            if self.take("offset"):
                d["offset"] = self.expr()
            elif self.take(","):
                d["offset"] = d["limit"]
                d["limit"] = self.expr()
        return d

    def stmt(self):
        w = self.word()
        if w == "select":
            return self.select()
        if w in ("insert", "replace"):
            self.i += 1
            d = {"k": "insert", "or": "replace" if w == "replace" else None, "upsert": None}
            if w == "insert" and self.take("or"):
                d["or"] = self.name()
            self.need("into")
            d["table"] = self.name()
            d["cols"] = self.names() if self.word() == "(" else None
            if self.take("values"):
                rows = []
                while True:
                    self.need("(")
                    xs = [self.expr()]
                    while self.take(","):
                        xs.append(self.expr())
                    self.need(")")
                    rows.append(tuple(xs))
                    if not self.take(","):
                        break
                d["rows"] = rows
            else:
                d["select"] = self.select()
            if self.take("on", "conflict"):
                if self.word() == "(":
                    self.names()
                self.need("do")
                if self.take("nothing"):
                    d["or"] = "ignore"
                else:
                    self.need("update", "set")
                    d["upsert"] = self.sets()
            return d
        if self.take("delete", "from"):
            d = {"k": "delete", "table": self.name(), "where": None}
            if self.take("where"):
                d["where"] = self.expr()
            return d
        if w == "update":
            self.i += 1
            d = {"k": "update", "or": self.name() if self.take("or") else None, "table": self.name(), "where": None}
            self.need("set")
            d["set"] = self.sets()
            if self.take("where"):
                d["where"] = self.expr()
            return d
        if self.take("create", "table"):
            d = {"k": "create table", "ine": self.take("if", "not", "exists"), "table": self.name(), "cols": [], "cons": []}
            self.need("(")
            while True:
                ws = []
                depth = 0
                while not (depth == 0 and self.word() in (",", ")") and self.peek()[0] == "op"):
                    k, v = self.peek()
                    if k == "eof":
                        raise SqlError("unterminated table definition")
                    depth += (v == "(" and k == "op") - (v == ")" and k == "op")
                    ws.append(v)
                    self.i += 1
                if ws and ws[0] in ("unique", "primary", "foreign", "check", "constraint"):
                    d["cons"].append(tuple(ws))
                else:
                    d["cols"].append(tuple(ws))
                if not self.take(","):
                    break
            self.need(")")
            return d
        if self.take("create", "unique", "index") or self.take("create", "index"):
            uq = self.t[self.i - 2][1] == "unique"
            d = {"k": "create index", "unique": uq, "ine": self.take("if", "not", "exists"), "name": self.name()}
            self.need("on")
            d["table"] = self.name()
            d["cols"] = self.names()
            return d
        if w == "drop":
            self.i += 1
            what = self.name()
            ie = self.take("if", "exists")
            return {"k": "drop " + what, "name": self.name(), "ie": ie}
        if w == "alter":
            self.i += 1
            self.need("table")
            d = {"k": "alter", "table": self.name()}
            d["rest"] = tuple(v for _, v in self.t[self.i:] if v != ";")
            self.i += len(d["rest"])
            return d
        if w == "vacuum":
            self.i += 1
            return {"k": "vacuum"}
        if w in ("pragma", "begin", "commit", "rollback", "analyze", "savepoint", "release", "end"):
            d = {"k": w, "rest": tuple(v for _, v in self.t[self.i + 1:] if v != ";")}
            self.i = len(self.t) - (self.t[-1][1] == ";")
            return d
        raise SqlError("unknown statement %r" % self.text)

    def sets(self):
        out = []
        while True:
            n = self.name()
            self.need("=")
            out.append((n, self.expr()))
            if not self.take(","):
                return out


def parse(text):
    """All statements of the text; each gets 'nparams'."""
    p = P(text)
    out = []
    while p.peek()[0] != "eof":
        if p.take(";"):
            continue
        d = p.stmt()
        out.append(d)
        if p.peek()[0] != "eof":
            p.need(";")
    for d in out:
        d["nparams"] = p.maxp
    return out


# ---------------------------------------------------------------- schema

class Schema:
    def __init__(self):
        self.tables = {}
        self.indexes = {}

    def apply(self, d):
        k = d["k"]
        if k == "create table":
            if d["table"] in self.tables:
                if d["ine"]:
                    return
                raise SqlError("table %s exists already" % d["table"])
            self.tables[d["table"]] = [c for c in d["cols"]] + [("#",) + c for c in d["cons"]]
        elif k == "create index":
            if d["name"] in self.indexes:
                if d["ine"]:
                    return
                raise SqlError("index %s exists already" % d["name"])
            for c in d["cols"]:
                if c not in self.columns(d["table"]):
                    raise SqlError("index %s over the unknown column %s" % (d["name"], c))
            self.indexes[d["name"]] = (d["table"], tuple(d["cols"]), d["unique"])
        elif k == "drop table":
            if d["name"] not in self.tables:
                if d["ie"]:
                    return
                raise SqlError("no table %s" % d["name"])
            del self.tables[d["name"]]
            for n in [n for n, x in self.indexes.items() if x[0] == d["name"]]:
                del self.indexes[n]
        elif k == "drop index":
            if d["name"] not in self.indexes:
                if d["ie"]:
                    return
                raise SqlError("no index %s" % d["name"])
            del self.indexes[d["name"]]
        elif k == "alter":
            r = d["rest"]
            if r[:1] == ("add",):
                r = r[2:] if r[1] == "column" else r[1:]
                self.tables[d["table"]].append(tuple(r))
            elif r[:2] == ("rename", "to"):
                self.tables[r[2]] = self.tables.pop(d["table"])
            elif r[0] == "rename":
                r = r[2:] if r[1] == "column" else r[1:]
                self.tables[d["table"]] = [((r[2],) + c[1:]) if c[0] == r[0] else c for c in self.tables[d["table"]]]
            elif r[0] == "drop":
                self.tables[d["table"]] = [c for c in self.tables[d["table"]] if c[0] != r[-1]]
        elif k in ("insert", "update", "delete", "vacuum", "pragma"):
            pass
        else:
            raise SqlError("unexpected statement %s in a migration" % k)

    def columns(self, t):
        if t not in self.tables:
            raise SqlError("no table %s" % t)
        return [c[0] for c in self.tables[t] if c[0] != "#"]

    def coldef(self, t, c):
        for x in self.tables.get(t, []):
            if x[0] == c:
                return x
        return None

    def unique(self, t, c):
        x = self.coldef(t, c)
        return bool(x) and ("unique" in x or "primary" in x) or \
            any(i[0] == t and i[1] == (c,) and i[2] for i in self.indexes.values())

    def snapshot(self):
        return {t: sorted(c) for t, c in self.tables.items()}, dict(self.indexes)

    # ---- validity of a statement
    def check(self, d):
        k = d["k"]
        if k == "select":
            self.sel(d, [])
        elif k == "insert":
            cols = d["cols"] or self.columns(d["table"])
            have = self.columns(d["table"])
            for c in cols:
                if c not in have:
                    raise SqlError("no column %s in %s" % (c, d["table"]))
            for c in self.tables[d["table"]]:
                if c[0] != "#" and "not" in c and "default" not in c and "primary" not in c and c[0] not in cols:
                    raise SqlError("insert into %s leaves the required column %s out" % (d["table"], c[0]))
            for r in d.get("rows", []):
                if len(r) != len(cols):
                    raise SqlError("insert of %d values into %d columns" % (len(r), len(cols)))
                for e in r:
                    self.ex(e, [])
            if "select" in d:
                self.sel(d["select"], [])
            for n, e in d["upsert"] or ():
                if n not in have:
                    raise SqlError("no column %s" % n)
        elif k == "delete":
            self.columns(d["table"])
            if d["where"]:
                self.ex(d["where"], [(d["table"], d["table"])])
        elif k == "update":
            have = self.columns(d["table"])
            for n, e in d["set"]:
                if n not in have:
                    raise SqlError("no column %s" % n)
                self.ex(e, [(d["table"], d["table"])])
            if d["where"]:
                self.ex(d["where"], [(d["table"], d["table"])])

    def sel(self, d, scope):
        sc = d["from"] + scope
        for t, _ in d["from"]:
            self.columns(t)
        for e in list(d["cols"]) + [d["where"]] + [o for o, _ in d["order"]] + [d["limit"], d["offset"]] + d["on"]:
            if e is not None:
                self.ex(e, sc)

    def ex(self, e, scope):
        if isinstance(e, dict):
            return self.sel(e, scope)
        if e and e[0] == "col":
            ts = [t for t, a in scope if len(e) == 2 or a == e[2] or t == e[2]]
            if not any(e[1] in self.columns(t) for t in ts) and e[1] not in ("rowid", "excluded"):
                raise SqlError("no column %s in %s" % (e[1], [t for t, _ in scope]))
            return
        for x in e[1:]:
            if isinstance(x, (tuple, dict)):
                if isinstance(x, tuple) and x and not isinstance(x[0], str):
                    for y in x:
                        self.ex(y, scope)
                elif x != ():
                    self.ex(x, scope)


def conjuncts(e):
    if e is None:
        return []
    if e[0] == "and":
        out = []
        for x in e[1:]:
            out += conjuncts(x)
        return out
    return [e]
