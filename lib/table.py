"""Truth tables of functions over atoms: opaque calls, comparisons and parameters are given every combination of outcomes, and
the abstract interpreter decides what the function returns or does in each."""
import itertools

import terms
from absint import *
from terms import *


class Atom:
    """One unknown: match(term) says whether a term asks about it, values are sets of classes (see terms.denied)."""

    def __init__(self, name, match, values):
        self.name, self.match, self.values = name, match, values


BOOL = ((True,), (False,))
OK_BOOL = (("POS", True), ("POS", False))
OPT = (("POS",), ("NEG",))


class Cmp:
    """How a compares with b: decides every way of comparing the two terms a and b recognises."""

    def __init__(self, name, a, b, values=("<", "=", ">")):
        self.name, self.a, self.b, self.values = name, a, b, values

    def ask(self, t, v):
        if t.op == "B" and t.a[0] in ("Lt", "Le"):
            x, y = t.a[1], t.a[2]
        elif t.op == "Eq":
            x, y = t.a[0], t.a[1]
        else:
            return None
        if self.a(x) and self.b(y):
            d = v
        elif self.a(y) and self.b(x):
            d = {"<": ">", ">": "<", "=": "="}[v]
        else:
            return None
        if t.op == "Eq":
            return (d == "=",)
        return (d == "<",) if t.a[0] == "Lt" else (d in "<=",)


def oracle(atoms, row):
    memo = {}

    def f(t):
        if t in memo:
            return memo[t]
        r = None
        for a, v in zip(atoms, row):
            if isinstance(a, Cmp):
                r = a.ask(t, v)
            elif a.match(t):
                r = v
            if r is not None:
                break
        memo[t] = r
        return r
    return f


def rows(atoms):
    return itertools.product(*[a.values for a in atoms])


def possible(t, facts=frozenset()):
    """The truth values t may have."""
    return {b for b in (True, False) if assume(t, b, facts) is not None}


def run(F, path, atoms, row, args=None, **kw):
    terms.ORACLE[0] = oracle(atoms, row)
    try:
        E = Engine(F, **kw)
        r = E.run(path, args)
        return r, possible(r.ret) if r.ret is not None else set()
    finally:
        terms.ORACLE[0] = None


def call(*names):
    """Matches an opaque call by the last segment of its name."""
    return lambda t: t.op == "C" and t.a[0].split("::")[-1] in names


def on(match, pred):
    """Matches a call one of whose arguments is the given unit."""
    return lambda t: match(t) and any(pred(x) for x in t.a[1:])


def excluded(facts, atoms, row):
    """Whether the facts cannot all hold when the atoms take these values."""
    terms.ORACLE[0] = oracle(atoms, row)
    try:
        def no(f):
            if f.op == "is":
                return assume(f.a[0], f.a[1]) is None
            if f.op == "or":
                return all(any(no(h) for h in k) for k in f.a[0])
            return False
        return any(no(f) for f in facts)
    finally:
        terms.ORACLE[0] = None


def label(atoms, row):
    return ", ".join("%s: %s" % (a.name, v if isinstance(v, str) else "/".join(map(str, v))) for a, v in zip(atoms, row))
