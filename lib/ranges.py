"""Intervals of numeric terms: the least and the greatest value a term may take, and whether it may be no number at all."""
import math
import struct

from terms import *

INF = math.inf
LEN = 2.0 ** 48         # no collection in memory has more elements, and no count of things done gets further
INT = {"i64": (-2.0 ** 63, 2.0 ** 63), "u64": (0, 2.0 ** 64), "usize": (0, 2.0 ** 64), "i32": (-2.0 ** 31, 2.0 ** 31 - 1),
       "u32": (0, 2.0 ** 32 - 1), "u8": (0, 255), "u16": (0, 65535), "i128": (-2.0 ** 127, 2.0 ** 127)}
TOP = (-INF, INF, True)
MAXF = 3.4028234663852886e38


def last(t):
    return t.a[0].split("::")[-1] if t.op in ("C", "ev") and isinstance(t.a[0], str) else None


def num(t):
    """The number a constant stands for."""
    if t.op == "K" and t.a[0] in ("int", "float", "f32", "f64", "num"):
        try:
            return float(t.a[1])
        except (TypeError, ValueError):
            return None
    return None


def times(x, t):
    """x is at least t, as t times a number."""
    if x.op == "B" and x.a[0] == "Mul" or last(x) == "saturating_mul":
        p, q = x.a[1:]
        return p is t and (num(q) or 0) >= 1 or q is t and (num(p) or 0) >= 1
    return False


def len_of(t):
    """The collection whose length t is."""
    if t.op == "C" and len(t.a) == 2 and last(t) in ("len", "unPtrMetadata", "count"):
        return t.a[1]
    return None


def join(a, b):
    return (min(a[0], b[0]), max(a[1], b[1]), a[2] or b[2]) if a and b else a or b


def fmul(a, b):
    return 0.0 if a == 0 or b == 0 else a * b


class Ranges:
    """leaf(term) gives the interval of terms that are not computed (None: by its form)."""

    def __init__(self, leaf=lambda t: None, loops=None, integer=None):
        self.integer = integer
        self.leaf = leaf
        self.loops = loops or {}
        self.memo = {}
        self.busy = set()

    def of(self, t, facts=frozenset()):
        k = (t, facts)
        if k in self.memo:
            return self.memo[k]
        if k in self.busy:
            return TOP
        self.busy.add(k)
        r = self._of(t, facts)
        r = self.refine(t, r, facts)
        for f, gs in choices(facts):
            o = None
            for g in gs:
                o = join(o, self.of(t, (facts - {f}) | g))
            if o:
                r = max(r[0], o[0]), min(r[1], o[1]), r[2] and o[2]
        self.busy.discard(k)
        self.memo[k] = r
        return r

    def refine(self, t, r, facts):
        lo, hi, nan = r
        for f in facts:
            if f.op != "is" or f.a[0].op not in ("B", "Eq"):
                continue
            c, v = f.a
            if c.op == "B" and c.a[0] in ("Lt", "Le") and v in (True, False):
                x, y = c.a[1], c.a[2]
                strict = (c.a[0] == "Lt") == v
                if not v:
                    x, y = y, x
                # x <= y, or x < y
                up = x is t or times(x, t) or same_len(x, t)
                if not up and y is not t and not same_len(y, t):
                    continue
                nan = nan and not v
                o = y if up else x
                b = self.of(o, facts - {f}) if num(o) is None else (num(o),) * 2 + (False,)
                if b[2]:
                    continue
                whole = self.whole(t) and strict
                if up:
                    hi = min(hi, b[1] - (1 if whole and x is t else 0))
                else:
                    lo = max(lo, b[0] + (1 if whole else 0))
        c = len_of(t)
        if c is not None:
            lo = max(lo, self.least(c, facts))
        return lo, hi, nan

    def whole(self, t):
        return len_of(t) is not None or (self.integer(t) if self.integer else False)

    def least(self, coll, facts):
        """The least number of elements."""
        n = 0
        for f in facts:
            if f.op == "is" and f.a[0].op == "C" and last(f.a[0]) == "is_empty" and f.a[0].a[-1] is coll and f.a[1] is False:
                n = max(n, 1)
            if f.op == "is" and f.a[1] == "POS" and last(f.a[0]) in ("first", "last") and f.a[0].a[-1] is coll:
                n = max(n, 1)
        if coll.op == "E" and coll.a[0].op == "C" and last(coll.a[0]) in ("windows", "chunks_exact", "array_windows"):
            k = num(coll.a[0].a[-1])
            n = max(n, int(k or 0))
        if coll.op == "E" and coll.a[0].op == "C" and last(coll.a[0]) in ("chunks", "chunk_by"):
            n = max(n, 1)
        if coll.op == "Arr":
            n = max(n, len(coll.a))
        return n

    def _of(self, t, facts):
        b = num(t)
        if b is not None:
            return (b, b, False) if b == b else (INF, -INF, True)
        r = self.leaf(t)
        if r is not None:
            return r
        if t.op == "Phi":
            out = None
            for x, fs in t.a:
                out = join(out, self.of(x, facts | fs))
            return out or TOP
        if len_of(t) is not None:
            return (0.0, LEN, False)
        if t.op == "E" and t.a[0].op == "A" and "Range" in t.a[0].a[0]:
            # one of the numbers of a range
            x = t.a[0]
            lo = self.of(field(x, "start"), facts) if "RangeTo" not in x.a[0] else (-INF, INF, False)
            hi = self.of(field(x, "end"), facts) if "RangeFrom" not in x.a[0] else (-INF, INF, False)
            return lo[0], hi[1] - (0 if "Inclusive" in x.a[0] else 1), False
        if t.op == "B":
            return self.arith(t.a[0], t.a[1], t.a[2], facts)
        if t.op == "C":
            n = last(t)
            args = t.a[1:]
            if n in ("max", "min") and len(args) == 2:
                a, b = self.of(args[0], facts), self.of(args[1], facts)
                g = max if n == "max" else min
                # of a number and none, the number
                nan = a[2] and b[2]
                lo, hi = g(a[0], b[0]), g(a[1], b[1])
                if a[2]:
                    lo, hi = min(lo, b[0]), max(hi, b[1])
                if b[2]:
                    lo, hi = min(lo, a[0]), max(hi, a[1])
                return lo, hi, nan
            if n == "clamp" and len(args) == 3:
                a, l, h = (self.of(x, facts) for x in args)
                return min(max(a[0], l[0]), h[1]), max(min(a[1], h[1]), l[0]), a[2] or l[2] or h[2]
            if n == "abs" and len(args) == 1:
                a = self.of(args[0], facts)
                lo = 0.0 if a[0] <= 0 <= a[1] else min(abs(a[0]), abs(a[1]))
                return lo, max(abs(a[0]), abs(a[1])), a[2]
            if n in ("saturating_sub", "saturating_add", "saturating_mul", "abs_diff", "wrapping_sub") and len(args) == 2:
                if n == "abs_diff":
                    return (0.0, 2.0 ** 64, False)
                a = self.arith({"saturating_sub": "Sub", "saturating_add": "Add", "saturating_mul": "Mul"}.get(n, "Sub"), args[0], args[1], facts)
                return max(a[0], -2.0 ** 63), min(a[1], 2.0 ** 64), False
            if n in ("num_minutes", "num_days", "num_seconds", "num_hours", "num_weeks", "timestamp", "num_milliseconds"):
                return (-2.0 ** 63, 2.0 ** 63, False)
            if n == "sqrt":
                a = self.of(args[0], facts)
                return math.sqrt(max(a[0], 0)), math.sqrt(max(a[1], 0)) if a[1] < INF else INF, a[2] or a[0] < 0
            if n == "exp":
                a = self.of(args[0], facts)
                return self.exp(a[0]), self.exp(a[1]), a[2]
            if n in ("ln_1p", "ln"):
                a = self.of(args[0], facts)
                o = 1.0 if n == "ln_1p" else 0.0
                f = lambda x: -INF if x + o <= 0 else INF if x == INF else math.log(x + o)
                return f(a[0]), f(a[1]), a[2] or a[0] + o < 0
            if n in ("powf", "powi") and len(args) == 2:
                return self.power(self.of(args[0], facts), self.of(args[1], facts))
            if n == "unNeg":
                a = self.of(args[0], facts)
                return -a[1], -a[0], a[2]
            if n in ("floor", "ceil", "round", "trunc"):
                a = self.of(args[0], facts)
                g = {"floor": math.floor, "ceil": math.ceil, "round": round, "trunc": math.trunc}[n]
                return tuple(x if abs(x) == INF else float(g(x)) for x in a[:2]) + (a[2],)
            if n == "sum" and len(args) == 1:
                return self.sum(args[0], facts)
            if n.startswith("as "):
                a = self.of(args[0], facts)
                lo, hi = INT.get(n[3:], (-INF, INF))
                return min(max(a[0], lo), hi), max(min(a[1], hi), lo), False
            if n == "random_range":
                x = args[-1]
                lo, hi = field(x, "start"), field(x, "end")
                a, b = self.of(lo, facts), self.of(hi, facts)
                return a[0], b[1], False
        return TOP

    @staticmethod
    def exp(x):
        if x > 700:
            return INF
        return 0.0 if x == -INF else math.exp(x)

    @staticmethod
    def power(a, b):
        if a[2] or b[2] or a[0] < 0 or a[0] == 0 and b[0] < 0:
            return TOP
        vs = []
        for x in a[:2]:
            for y in b[:2]:
                try:
                    if x == INF:
                        v = INF if y > 0 else 1.0 if y == 0 else 0.0
                    elif abs(y) == INF:
                        v = 1.0 if x == 1 else INF if (x > 1) == (y > 0) else 0.0
                    else:
                        v = x ** y
                except OverflowError:
                    v = INF
                vs.append(v)
        # where the exponent may be 0 or the base 1, that is between the corners
        return min(vs), max(vs), False

    def sum(self, coll, facts):
        out = None
        some = 0
        for e, fs in elems(coll):
            out = join(out, self.of(e, facts | fs))
            if not fs:
                base = e
                c = source(e)
                if c is not None:
                    some = max(some, self.least(c, facts))
        if out is None:
            return (0.0, 0.0, False)
        lo = fmul(out[0], LEN) if out[0] < 0 else out[0] * some
        hi = fmul(out[1], LEN) if out[1] > 0 else out[1] * some
        return lo, hi, out[2]

    def arith(self, o, x, y, facts):
        a, b = self.of(x, facts), self.of(y, facts)
        nan = a[2] or b[2]
        if o == "Add":
            if a[0] == -INF and b[1] == INF or a[1] == INF and b[0] == -INF:
                nan = True
            f = lambda p, q, d: d if p + q != p + q else p + q
            return f(a[0], b[0], -INF), f(a[1], b[1], INF), nan
        if o == "Sub":
            if a[1] == INF and b[1] == INF or a[0] == -INF and b[0] == -INF:
                nan = True
            f = lambda p, q, d: d if p - q != p - q else p - q
            return f(a[0], b[1], -INF), f(a[1], b[0], INF), nan
        if o == "Mul":
            if x is y:
                m = max(abs(a[0]), abs(a[1]))
                return (0.0 if a[0] <= 0 <= a[1] else min(abs(a[0]), abs(a[1])) ** 2), m * m, nan
            if a[0] <= 0 <= a[1] and INF in (abs(b[0]), abs(b[1])) or b[0] <= 0 <= b[1] and INF in (abs(a[0]), abs(a[1])):
                nan = True
            vs = [fmul(p, q) for p in a[:2] for q in b[:2]]
            return min(vs), max(vs), nan
        if o in ("Div", "Quo"):
            if b[0] <= 0 <= b[1]:
                zero = a[0] <= 0 <= a[1] and o == "Div"
                if b[0] == 0 and a[0] >= 0 and b[1] > 0:
                    return (a[0] / b[1] if b[1] < INF else 0.0), INF, nan or zero or INF in (a[1],) and b[1] == INF
                return (-INF, INF, True)
            if INF in (abs(a[0]), abs(a[1])) and INF in (abs(b[0]), abs(b[1])):
                nan = True
            vs = [0.0 if abs(q) == INF else p / q for p in a[:2] for q in b[:2]]
            return min(vs), max(vs), nan
        if o == "Rem":
            m = max(abs(b[0]), abs(b[1]))
            return (0.0 if a[0] >= 0 else -m), m, nan or b[0] <= 0 <= b[1]
        return TOP


def choices(facts):
    """The facts that one of several sets of facts holds."""
    n = 0
    for f in facts:
        if f.op == "or" and n < 3 and len(f.a[0] if len(f.a) == 1 else f.a) <= 4:
            n += 1
            yield f, [g for g in (f.a[0] if len(f.a) == 1 else f.a)]


def source(e):
    """The collection that is gone through to compute e, if it is just one."""
    cs = set()

    def walk(t):
        if t.op == "E":
            cs.add(t.a[0])
            return
        for k in t.a:
            if isinstance(k, T):
                walk(k)
    walk(e)
    return cs.pop() if len(cs) == 1 else None


def same_len(x, y):
    return len_of(x) is not None and len_of(x) is len_of(y)


def at_most(x, y, facts, R, depth=6):
    """x <= y for sure."""
    if x is y or same_len(x, y):
        return True
    if y.op == "E" and y.a[0].op == "A" and "Range" in y.a[0].a[0] and "RangeTo" not in y.a[0].a[0] and \
            at_most(x, field(y.a[0], "start"), facts, R, depth - 1):
        return True
    a, b = R.of(x, facts), R.of(y, facts)
    if not a[2] and not b[2] and a[1] <= b[0]:
        return True
    if depth == 0:
        return False
    for f in facts:
        if f.op == "is" and f.a[0].op == "B" and f.a[0].a[0] in ("Lt", "Le"):
            p, q = f.a[0].a[1:]
            if f.a[1] is False:
                p, q = q, p
            # p <= q (or p < q)
            if (p is x or same_len(p, x)) and at_most(q, y, facts - {f}, R, depth - 1):
                return True
        if f.op == "is" and f.a[0].op in ("Eq",) and f.a[1] is True and x in f.a[0].a:
            o = f.a[0].a[0] if f.a[0].a[1] is x else f.a[0].a[1]
            if at_most(o, y, facts - {f}, R, depth - 1):
                return True
    for f, gs in choices(facts):
        if all(at_most(x, y, (facts - {f}) | g, R, depth - 1) for g in gs):
            return True
    # what x is computed from
    if x.op == "B" and x.a[0] == "Quo":
        d = num(x.a[2])
        if d is not None and d >= 1:
            m = x.a[1]
            if at_most(m, y, facts, R, depth - 1):
                return True
            if (m.op == "B" and m.a[0] == "Mul" or last(m) == "saturating_mul"):
                p, q = m.a[1:]
                for u, k in ((p, num(q)), (q, num(p))):
                    if k is not None and k <= d and at_most(u, y, facts, R, depth - 1):
                        return True
    if x.op == "B" and x.a[0] == "Sub" and at_most(x.a[1], y, facts, R, depth - 1) and R.of(x.a[2], facts)[0] >= 0:
        return True
    if last(x) == "min" and any(at_most(z, y, facts, R, depth - 1) for z in x.a[1:]):
        return True
    if last(y) == "max" and any(at_most(x, z, facts, R, depth - 1) for z in y.a[1:]):
        return True
    if y.op == "B" and y.a[0] == "Mul" or last(y) == "saturating_mul":
        p, q = y.a[1:]
        for u, k in ((p, num(q)), (q, num(p))):
            if k is not None and k >= 1 and R.of(u, facts)[0] >= 0 and at_most(x, u, facts, R, depth - 1):
                return True
    if x.op == "Phi" and len(x.a) < 12:
        return all(at_most(z, y, facts | fs, R, depth - 1) for z, fs in x.a)
    if y.op == "Phi" and len(y.a) < 12:
        return all(at_most(x, z, facts | fs, R, depth - 1) for z, fs in y.a)
    return False


def below(i, n, facts, R):
    """i < n for sure."""
    a, b = R.of(i, facts), R.of(n, facts)
    if a[1] < b[0]:
        return True
    for f in facts:
        if f.op == "is" and f.a[0].op == "B" and f.a[0].a[0] in ("Lt", "Le") and f.a[1] in (True, False):
            p, q = f.a[0].a[1:]
            strict = (f.a[0].a[0] == "Lt") == f.a[1]
            if f.a[1] is False:
                p, q = q, p
            if strict and at_most(i, p, facts - {f}, R) and at_most(q, n, facts - {f}, R):
                return True
    # one of the numbers below n
    if i.op == "E" and i.a[0].op == "A" and "Range" in i.a[0].a[0]:
        e = field(i.a[0], "end")
        if "Inclusive" not in i.a[0].a[0] and at_most(e, n, facts, R):
            return True
    if i.op == "E" and i.a[0].op == "A" and i.a[0].a[0].endswith("RangeInclusive") and below(field(i.a[0], "end"), n, facts, R):
        return True
    if i.op == "B" and i.a[0] == "Sub" and below(i.a[1], n, facts, R) and R.of(i.a[2], facts)[0] >= 0:
        return True
    if i.op == "B" and i.a[0] == "Sub":
        k = R.of(i.a[2], facts)
        if k[0] >= 1 and at_most(i.a[1], n, facts, R):
            return True
    if i.op == "Phi" and len(i.a) < 12:
        return all(below(z, n, facts | fs, R) for z, fs in i.a)
    return False
