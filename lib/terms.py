"""Term engine: a context-sensitive forward abstract interpretation of MIR.

Every local function is inlined virtually (memoised on its argument terms); values are hash-consed symbolic
terms, conditions are must-facts, joins keep the facts that gate each alternative.  Nothing is executed.

Terms (op, args):
  P i                      parameter i of the root function
  K kind value             constant
  F t name                 field
  V t variant              payload view of enum variant
  E c                      some element of collection c
  C path args...           result of a call that is not looked into
  A adt variant (f,t)...   aggregate
  U base (f,t)...          base with overridden fields
  Clo path upvars...       closure value
  Arr t...                 array literal, in order
  S (t,facts)...           collection whose elements are one of the alternatives
  Phi (t,facts)...         one of the alternatives, each under its facts
  Pos t / Neg              Some/Ok/Continue(t)  /  None/Err/Break
  Maybe t                  Some(t) or None (fresh each time)
  I c                      partly consumed iterator over c
  Not t, Is t cls          boolean views
  B op a b                 primitive binary operation
  M root path              mutable reference to a place of the evaluating frame
  L fn local               a local place name,  At place key: an entry of a map place
  W ...                    widened / unknown value
"""
from facts import short, operands

_tab = {}
_cnt = 0
_EMPTY = frozenset()


class T:
    __slots__ = ("op", "a", "id", "atoms", "depth", "size", "ps")

    def __repr__(self):
        return show(self)


def mk(op, *a):
    global _cnt
    key = (op, a)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        _cnt += 1
        t.id = _cnt
        atoms = set()
        ps = set()
        d = 0
        sz = 1
        for k in _kids(a):
            atoms |= k.atoms
            ps |= k.ps
            if k.depth > d:
                d = k.depth
            sz += k.size
        t.depth = d + 1
        t.size = min(sz, 10 ** 9)
        if op in ("E", "W"):
            atoms.add(t)
        if op in ("P", "C"):
            ps.add(t)
        t.atoms = frozenset(atoms)
        t.ps = frozenset(ps) if len(ps) < 60 else frozenset(list(sorted(ps, key=lambda x: x.id))[:60])
        _tab[key] = t
    return t


def _kids(a):
    for x in a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, (tuple, frozenset)):
            yield from _kids(x)


NEG = mk("Neg")
TRUE = mk("K", "bool", True)
FALSE = mk("K", "bool", False)
UNIT = mk("K", "unit", None)
EMPTY_S = mk("S")


def show(t, d=7):
    if not isinstance(t, T):
        return str(t)
    if d <= 0:
        return "…"
    o, a = t.op, t.a
    s = lambda x: show(x, d - 1)
    if o == "P":
        return "P%s" % (a[0],)
    if o == "K":
        return repr(a[1]) if a[0] != "fn" else "fn " + a[1]
    if o == "F":
        return "%s.%s" % (s(a[0]), a[1])
    if o == "V":
        return "(%s as %s)" % (s(a[0]), a[1])
    if o == "E":
        return "∈%s" % s(a[0])
    if o == "C":
        return "%s(%s)" % (a[0].split("::")[-1], ", ".join(s(x) for x in a[1:]))
    if o == "A":
        return "%s::%s{%s}" % (a[0].split("::")[-1], a[1], ", ".join("%s:%s" % (n, s(x)) for n, x in a[2:]))
    if o == "U":
        return "%s{%s}" % (s(a[0]), ", ".join("%s:=%s" % (n, s(x)) for n, x in a[1:]))
    if o in ("S", "Phi"):
        return "%s{%s}" % (o, " | ".join(s(x) + ("" if not f else "⟨%s⟩" % ", ".join(
            sorted(s(y) for y in f))) for x, f in a))
    if o == "is":
        return "%s=%s" % (s(a[0]), a[1])
    if o == "ev":
        return "ev:%s(%s)" % (a[0].split("::")[-1], ", ".join(s(x) for x in a[1:]))
    if o == "or":
        return " ∨ ".join("(" + " ∧ ".join(sorted(s(y) for y in x)) + ")" for x in a[0])
    if o == "ex":
        return "∃%s: %s" % (s(a[0]), ", ".join(s(x) for x in a[1]))
    if o == "all":
        return "∀%s: %s" % (s(a[0]), s(a[1]))
    if o == "Arr":
        return "[%s]" % ", ".join(s(x) for x in a)
    if o == "Clo":
        return "|%s|" % a[0].split("::")[-2:]
    return "%s(%s)" % (o, ", ".join(s(x) for x in a))


# ---------------------------------------------------------------- constructors

def K(kind, v):
    return mk("K", kind, v)


def alts(t):
    """Alternatives of a value as (term, facts)."""
    if t.op == "Phi":
        return t.a
    return ((t, _EMPTY),)


MAXALT = 14


EITHER = [False]       # keep, for equal alternatives, that one of their conditions holds


def _merge(items):
    d = {}
    for t, f in items:
        if t in d:
            both = d[t] & f
            p, q = [frozenset(x for x in g - both if x.op == "is") for g in (d[t], f)]
            d[t] = both | {mk("or", frozenset([p, q]))} if EITHER[0] and p and q and len(p) + len(q) <= 12 else both
        else:
            d[t] = f
    return d


def Phi(items):
    """items: iterable of (term, facts)."""
    flat = []
    for t, f in items:
        if t.op == "Phi":
            for u, g in t.a:
                flat.append((u, f | g if f else g))
        else:
            flat.append((t, f))
    if len(flat) > 1 and any(t.op == "Arr" for t, _ in flat) and any(t is not flat[0][0] for t, _ in flat):
        flat = [(S(elems(t)), f) if t.op == "Arr" else (t, f) for t, f in flat]
    d = _merge(flat)
    # merge Pos alternatives when there are too many, collections always
    ss = [t for t in d if t.op == "S"]
    if ss and len(d) > 1:
        rest = [t for t in d if t.op != "S"]
        if all(t.op in ("E", "C", "F", "P", "I") for t in rest):
            it = []
            for t in ss:
                for u, g in t.a:
                    it.append((u, g | _gate(d[t], u)))
            for t in rest:
                for u, g in elems(t):
                    it.append((u, g | _gate(d[t], u)))
            return S(it)
        if len(ss) > 1:
            it = []
            for t in ss:
                for u, g in t.a:
                    it.append((u, g | _gate(d[t], u)))
            f = d[ss[0]]
            for t in ss:
                f = f & d[t]
                del d[t]
            d[S(it)] = f
    if len(d) > 6:
        pos = [t for t in d if t.op == "Pos"]
        if len(pos) > 1:
            f = d[pos[0]]
            for t in pos:
                f = f & d[t]
            pay = Phi([(t.a[0], d[t]) for t in pos])
            for t in pos:
                del d[t]
            d[mk("Pos", pay)] = f
    if len(d) == 1:
        (t, f), = d.items()
        if not f:
            return t
    if not d:
        return mk("W", "bottom")
    if len(d) > MAXALT:
        key = tuple(sorted(d, key=lambda t: t.id))
        return mk("W", "many", key[0].id, len(key))
    return mk("Phi", *sorted(d.items(), key=lambda x: x[0].id))


def _gate(fs, elem):
    """Facts worth attaching to a collection element."""
    if not fs:
        return _EMPTY
    at = elem.atoms
    ps = elem.ps
    return frozenset(f for f in fs if f.op in ("is", "or", "all") and ((f.atoms & at) if at else (f.ps & ps)))


def replace(x, old, new, memo=None):
    """x with old replaced by new."""
    if memo is None:
        memo = {}
    if isinstance(x, T):
        if x is old:
            return new
        if x in memo:
            return memo[x]
        memo[x] = x
        a = tuple(replace(y, old, new, memo) for y in x.a)
        r = x if all(p is q for p, q in zip(a, x.a)) else mk(x.op, *a)
        memo[x] = r
        return r
    if isinstance(x, tuple):
        a = tuple(replace(y, old, new, memo) for y in x)
        return x if all(p is q for p, q in zip(a, x)) else a
    if isinstance(x, frozenset):
        a = frozenset(replace(y, old, new, memo) for y in x)
        return x if a == x else a
    return x


MAXELEM = 24


def S(items):
    flat = []
    for t, f in items:
        if t.op == "Phi":
            for u, g in t.a:
                # what is known about the value holds for the alternative it is
                flat.append((u, g | frozenset(replace(x, t, u) if x.size < 3000 else x for x in f)))
        else:
            flat.append((t, f))
    d = _merge(flat)
    if len(d) > MAXELEM:
        return mk("S", (mk("W", "manyelems", min(t.id for t in d)), _EMPTY))
    return mk("S", *sorted(d.items(), key=lambda x: x[0].id))


def elems(c):
    """Element alternatives of a collection term."""
    if c.op == "S":
        return c.a
    if c.op == "Arr":
        return tuple((t, _EMPTY) for t in c.a)
    if c.op == "I":
        return elems(c.a[0])
    if c.op == "Phi":
        out = []
        for t, f in c.a:
            for u, g in elems(t):
                out.append((u, g | f))
        return tuple(out)
    if c.op in ("Pos", "Maybe"):      # iterating an Option
        return alts(c.a[0])
    if c.op == "Neg":
        return ()
    if c.op == "IM" and c.a[0].op == "M":      # references to the elements
        x = c.a[0]
        return ((mk("M", x.a[0], x.a[1] + (("[]", None),)), _EMPTY),)
    return ((mk("E", c), _EMPTY),)


def elem(c):
    e = elems(c)
    if not e:
        return mk("W", "noelem")
    return Phi(e)


def coll_of(c):
    """As an explicit collection."""
    return S(elems(c))


def Not(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "Not":
        return t.a[0]
    if t.op == "Phi":
        return Phi([(Not(u), f) for u, f in t.a])
    return mk("Not", t)


def Eq(a, b):
    if a is b and not a.atoms:
        return TRUE
    if a.op == "K" and b.op == "K" and a.a[0] == b.a[0] and a.a[0] != "const":
        return TRUE if a.a == b.a else FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == "A" and len(x.a) == 2 and x.a[0] != "tuple":
            return Is(y, x.a[1])
        if x is TRUE:
            return y
        if x is FALSE:
            return Not(y)
        if x is NEG:
            return Is(y, "NEG")
    if a.id > b.id:
        a, b = b, a
    return mk("B", "Eq", a, b)


def Is(t, cls):
    if cls is True:
        return t
    if cls is False:
        return Not(t)
    if t.op == "Phi":
        return Phi([(Is(u, cls), f) for u, f in t.a])
    k = class_of(t)
    if k is not None:
        return TRUE if k == cls else FALSE
    if cls == "NEG":
        return mk("Not", mk("Is", t, "POS"))
    return mk("Is", t, cls)


def class_of(t):
    if t.op == "Pos":
        return "POS"
    if t.op == "Neg":
        return "NEG"
    if t.op == "A" and t.a[0] != "tuple":
        return t.a[1]
    if t is TRUE:
        return True
    if t is FALSE:
        return False
    return None


def payload(t):
    """Payload of Some/Ok/Continue."""
    if t.op == "Pos":
        return t.a[0]
    if t.op == "Maybe":
        return t.a[0]
    if t.op == "Phi":
        it = [(payload(u), f) for u, f in t.a if u.op != "Neg"]
        return Phi(it) if it else mk("W", "nopayload")
    if t.op == "Neg":
        return mk("W", "nopayload")
    return t


def field(t, name):
    if t.op == "A":
        for n, v in t.a[2:]:
            if n == name:
                return v
        return mk("F", t, name)
    if t.op == "U":
        for n, v in t.a[1:]:
            if n == name:
                return v
        return field(t.a[0], name)
    if t.op == "Phi":
        return Phi([(field(u, name), f) for u, f in t.a])
    if t.op == "Clo":
        try:
            return t.a[1 + int(name)]
        except (ValueError, IndexError):
            pass
    return mk("F", t, name)


def set_field(t, name, v):
    if t.op == "A":
        return mk("A", t.a[0], t.a[1], *[(n, v if n == name else x) for n, x in t.a[2:]])
    if t.op == "Clo":
        a = list(t.a)
        a[1 + int(name)] = v
        return mk("Clo", *a)
    base, ov = (t.a[0], dict(t.a[1:])) if t.op == "U" else (t, {})
    ov[name] = v
    return mk("U", base, *sorted(ov.items()))


POSV = ("Some", "Ok", "Continue")
NEGV = ("None", "Err", "Break")


def vclass(adt, variant):
    if adt in ("std::option::Option", "std::result::Result", "std::ops::ControlFlow"):
        return "POS" if variant in POSV else "NEG"
    return variant


def narrow(t, cls):
    """Drop alternatives of a definite other class."""
    if t.op == "Phi":
        it = [(u, f) for u, f in t.a if class_of(u) in (None, cls)]
        return Phi(it) if it else t
    return t


# ---------------------------------------------------------------- facts

def fact(t, cls):
    return mk("is", t, cls)


def ev(path, *args):
    return mk("ev", path, *args)


# truth tables: a function giving the classes (True, POS, a variant, ...) a term is taken to have, or None
ORACLE = [None]


def denied(t, c):
    """Whether the oracle says t is not of class c."""
    if ORACLE[0] is None:
        return False
    a = ORACLE[0](t)
    if not a:
        return False
    if c is True or c is False:
        return (not c) in [x for x in a if x is True or x is False]
    if c in ("POS", "NEG"):
        return ("NEG" if c == "POS" else "POS") in a
    vs = [x for x in a if isinstance(x, str) and x not in ("POS", "NEG")]
    if isinstance(c, str) and vs:
        return c[1:] in vs if c.startswith("!") else c not in vs
    return False


def contradicts(fs, f):
    if f.op == "or" and ORACLE[0] is not None:
        return all(any(contradicts(fs, x) for x in g) for g in f.a[0])
    if f.op != "is":
        return False
    t, c = f.a
    if ORACLE[0] is not None and denied(t, c):
        return True
    if c is True:
        return mk("is", t, False) in fs
    if c is False:
        return mk("is", t, True) in fs
    if c == "POS":
        return mk("is", t, "NEG") in fs
    if c == "NEG":
        return mk("is", t, "POS") in fs
    if isinstance(c, str):
        if c.startswith("!"):
            return mk("is", t, c[1:]) in fs
        return mk("is", t, "!" + c) in fs
    return False


# opaque calls assumed to succeed (set by a rule that states this assumption)
NOFAIL = set()


def _truth(t):
    """Certainly a truth value."""
    return t.op in ("Is", "Not") or t is TRUE or t is FALSE or t.op == "Phi" and any(_truth(x) for x, _ in t.a)


def assume(t, cls, fs=_EMPTY):
    """(facts, refined term) that follow from t being of class cls, or None if infeasible."""
    if t.op == "Phi":
        keep = []
        for u, g in t.a:
            if any(contradicts(fs, x) for x in g):
                continue
            r = assume(u, cls, fs)
            if r is not None:
                keep.append((r[1], g | r[0]))
        if not keep:
            return None
        f = keep[0][1]
        for _, g in keep[1:]:
            f = f & g
        return f, (keep[0][0] if len(keep) == 1 else Phi(keep))
    k = class_of(t)
    if k is not None:
        if isinstance(cls, str) and cls.startswith("!"):
            return (_EMPTY, t) if k != cls[1:] else None
        return (_EMPTY, t) if k == cls else None
    if t.op == "Not" and cls in (True, False):
        r = assume(t.a[0], not cls, fs)
        return None if r is None else (r[0], Not(r[1]) if r[1].op != "W" else t)
    if t.op == "Is" and cls in (True, False):
        c = t.a[1]
        if not cls:
            c = {"POS": "NEG", "NEG": "POS"}.get(c, "!" + c)
        r = assume(t.a[0], c, fs)
        return None if r is None else (r[0], TRUE if cls else FALSE)
    if t.op == "B" and cls in (True, False):
        o, a, b = t.a
        if (o == "BitAnd" and cls) or (o == "BitOr" and not cls):
            r1 = assume(a, cls, fs)
            r2 = assume(b, cls, fs)
            if r1 is None or r2 is None:
                return None
            return r1[0] | r2[0], (TRUE if cls else FALSE)
        if o in ("BitAnd", "BitOr"):
            r1 = assume(a, cls, fs)
            r2 = assume(b, cls, fs)
            if r1 is None and r2 is None:
                return None
        if o == "Eq" and (_truth(a) or _truth(b)):
            rs = [(x, y) for u in (True, False) for x, y in [(assume(a, u, fs), assume(b, u if cls else not u, fs))]
                  if x is not None and y is not None]
            if not rs:
                return None
            if len(rs) == 1:
                return rs[0][0][0] | rs[0][1][0], (TRUE if cls else FALSE)
    if t.op == "Maybe":
        if cls == "POS":
            x = t.a[0]
            al = alts(x)
            f = al[0][1]
            for _, g in al[1:]:
                f = f & g
            if len(al) == 1:
                x = al[0][0]
            return f, mk("Pos", x)
        if cls == "NEG":
            return _EMPTY, NEG
    if t.op == "K" and t.a[0] in ("int", "str", "float"):
        return _EMPTY, t
    if cls == "NEG" and t.op == "C" and NOFAIL and t.a[0] in NOFAIL:
        return None
    f = fact(t, cls)
    if contradicts(fs, f):
        return None
    if cls is True:
        return frozenset([f]), TRUE
    if cls is False:
        return frozenset([f]), FALSE
    if cls == "POS":
        return frozenset([f]), mk("Pos", t)
    if cls == "NEG":
        return frozenset([f]), NEG
    return frozenset([f]), t


def disj(t, cls, fs=_EMPTY):
    """The disjunction that follows from t being of class cls: {or(facts | facts ...)}, or nothing."""
    if t.op != "Phi" or len(t.a) > 6:
        return _EMPTY
    out = []
    for u, g in t.a:
        if any(contradicts(fs, x) for x in g):
            continue
        r = assume(u, cls, fs)
        if r is not None:
            out.append(frozenset(g | r[0]))
    if len(out) < 2 or any(not x for x in out):
        return _EMPTY
    return frozenset([mk("or", frozenset(out))])


def either(out):
    """Alternatives of the same truth value joined, keeping that one of their conditions holds."""
    r = []
    for v in (TRUE, FALSE):
        sets = [g for u, g in out if u is v]
        if 2 <= len(sets) <= 4 and all(sets):
            common = frozenset.intersection(*[frozenset(x) for x in sets])
            br = [frozenset(x for x in g - common if x.op in ("is", "or", "all")) for g in sets]
            if all(br) and sum(map(len, br)) <= 24:
                r.append((v, common | {mk("or", frozenset(br))}))
                continue
        r += [(v, g) for g in sets]
    return r + [(u, g) for u, g in out if u is not TRUE and u is not FALSE]


def subst_gate(v, fs):
    """v guarded by fs."""
    if not fs:
        return v
    return Phi([(u, g | fs) for u, g in alts(v)])
