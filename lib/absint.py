"""Forward abstract interpretation of MIR over the terms of terms.py (see there)."""
import sys
from facts import short
import terms
from terms import *
from terms import _gate

sys.setrecursionlimit(20000)


class Site:
    """A construct of interest reached from the root: kind 'agg' | 'call' | 'store'."""
    __slots__ = ("kind", "name", "args", "facts", "fn", "span", "chain", "recv", "conds", "loop")

    def __init__(self, kind, name, args, facts, fn, span, chain=(), recv=None, conds=frozenset(), loop=False):
        self.kind, self.name, self.args, self.facts, self.fn, self.span, self.chain, self.recv = \
            kind, name, args, facts, fn, span, chain, recv
        self.loop = loop        # inside a loop, or in a closure applied to each element of a collection
        self.conds = conds      # conditions (of any frame of the chain) the site is control dependent on

    def key(self):
        return (self.kind, self.name, self.args, self.facts, self.fn, tuple(self.span), self.recv, self.conds, self.loop)

    def arg(self, n):
        if self.kind in ("agg", "field"):
            for k, v in self.args:
                if k == n:
                    return v
            return None
        return self.args[n]

    def where(self):
        return "%s:%s in %s" % (self.span[0], self.span[1], self.fn)

    def __repr__(self):
        return "<%s %s %s @%s>" % (self.kind, self.name, self.args, self.where())


class Result:
    __slots__ = ("ret", "cells", "facts", "sites")


class State:
    __slots__ = ("env", "facts")

    def __init__(self, env, facts):
        self.env = env
        self.facts = facts

    def copy(self):
        return State(dict(self.env), self.facts)


class Incomplete(Exception):
    pass


def two(path):
    p = short(path).replace("<", "").replace(">", "")
    seg = p.split("::")
    return "::".join(seg[-2:])


IDENT = set("""
Deref::deref Clone::clone ToOwned::to_owned Into::into From::from ToString::to_string AsRef::as_ref Borrow::borrow
Arc::new Box::new Rc::new RwLock::new Mutex::new RefCell::new Cell::new Arc::unwrap_or_clone Arc::clone
Option::as_ref Option::as_deref Option::as_mut Option::as_deref_mut Option::cloned Option::copied Option::ok_or
Option::ok_or_else Result::ok Result::map_err Result::as_ref Context::context Context::with_context Try::branch
hint::must_use __private::must_use hint::black_box slice::iter IntoIterator::into_iter Iterator::copied
Iterator::cloned Iterator::rev Iterator::take Iterator::skip Iterator::by_ref Iterator::fuse Iterator::step_by
Iterator::take_while slice::to_vec slice::into_vec String::as_str Ustr::as_str Ustr::from String::from
String::as_bytes String::into_bytes str::as_bytes Vec::iter HashSet::iter HashMap::iter BTreeMap::iter VecDeque::iter
Vec::as_slice Vec::into_boxed_slice HashMap::into_iter HashSet::into_iter Vec::into_iter Iterator::peekable
IntoParallelIterator::into_par_iter IntoParallelRefIterator::par_iter Path::to_path_buf PathBuf::as_path Path::new
OsStr::to_owned Box::into_inner Mutex::into_inner RwLock::into_inner RefCell::into_inner
boxed::box_assume_init_into_vec_unsafe Option::take RwLock::get_mut Mutex::get_mut Option::ok Iterator::flatten_ok
BorrowMut::borrow_mut AsMut::as_mut Arc::make_mut Arc::as_ref Vec::as_mut_slice HashSet::drain Vec::drain
HashMap::drain slice::iter_mut Vec::iter_mut mem::take Cow::into_owned Result::as_deref str::to_string
str::to_owned Iterator::sorted collect::into Arc::from Box::from Rc::clone Path::as_ref Option::iter Option::into_iter
Option::as_slice Result::iter array::map_ident IntoIterator::into_iter OsString::from PathBuf::from
IntoIterator::into_par_iter IntoIterator::par_iter
""".split())
GUARD = set("RwLock::write Mutex::lock RefCell::borrow_mut RwLock::upgradable_read RwLock::try_write".split())
RGUARD = set("RwLock::read RefCell::borrow RwLock::try_read RwLock::read_recursive".split())
ADDERS = {"Vec::push": (1,), "VecDeque::push_back": (1,), "VecDeque::push_front": (1,), "HashSet::insert": (1,),
          "BTreeSet::insert": (1,), "Vec::insert": (2,), "BinaryHeap::push": (1,)}
MAPADD = {"HashMap::insert", "BTreeMap::insert"}
NOCHANGE = set("""slice::sort slice::sort_by slice::sort_by_key slice::sort_unstable slice::sort_unstable_by
slice::sort_unstable_by_key Vec::dedup Vec::truncate slice::reverse SliceRandom::shuffle Vec::reserve slice::sort_by_cached_key
Vec::dedup_by_key HashSet::remove HashMap::remove Vec::remove Vec::swap_remove Vec::clear HashMap::clear HashSet::clear
slice::swap Vec::shrink_to_fit HashMap::reserve HashSet::reserve slice::rotate_left BTreeMap::remove BTreeSet::remove
Formatter::write_fmt Write::write_fmt Write::write_all Read::read_to_string String::push_str String::push PathBuf::push
Vec::with_capacity Index::index IndexMut::index_mut PathBuf::pop PathBuf::set_extension""".split())


SQLMODEL = set("""Statement::query_map Statement::query_and_then Statement::query_row Connection::query_row Rows::next
Transaction::query_row""".split())
TRANSPARENT = {"std::boxed::Box", "std::mem::MaybeUninit", "std::mem::ManuallyDrop"}
WDEAD = mk("W", "uninit")


ZERO = K("int", 0)


BITS = dict([(s + str(n), n) for s in "iu" for n in (8, 16, 32, 64, 128)] + [("isize", 64), ("usize", 64), ("f32", 32), ("f64", 64)])


class Engine:
    def __init__(self, F, opaque=None, event=None, watch_adts=(), watch_call=None, watch_store=None, watch_fields=(),
                 max_evals=60000, inline=None, vals=False, popsym=False, nest=False, sym=None, asserts=False):
        self.asserts = asserts    # report what is asserted before an operation (bounds, divisors, overflow)
        self.sym = sym or (lambda n, a: None)     # symbols to stand for the results of calls
        self.nest = nest        # keep the two levels of results of opaque calls apart (Result<Option<..>>)
        self.F = F
        self.opaque = opaque or (lambda p: False)
        self.event = event or (lambda p: False)
        self.watch_adts = set(watch_adts)
        self.watch_call = watch_call or (lambda p: False)
        self.watch_store = watch_store or (lambda t: False)
        self.watch_fields = set(watch_fields)
        self.inline_virtual = inline or (lambda p: None)
        self.popsym = popsym  # what is taken from a worklist is a symbol, so that one round of its loop can be examined
        self.vals = vals      # watched calls and events record the values behind mutable references
        self.memo = {}
        self.stack = []
        self.fnrefs = {}
        self.evals = 0
        self.max_evals = max_evals
        self.visited = set()
        self.notes = []
        self._rpo = {}
        self._cd = {}
        self._sw = None
        self.unknown = {}
        self._loopcoll = {}
        self._breaks = {}
        self.taken = {}       # symbol of a worklist's element -> what the worklist held when it was taken

    # ------------------------------------------------------------ public
    def run(self, path, args=None):
        """Evaluate a root function with symbolic parameters."""
        f = self.F.fns[path]
        a, cells = [], {}
        for i in range(1, f.argc + 1):
            p = args[i - 1] if args and args[i - 1] is not None else mk("P", i)
            if f.locals[i].startswith("&mut ") or f.locals[i].startswith("&'a mut ") or " mut " in f.locals[i][:14]:
                root = ("p", "r%d" % i, p)
                cells[root] = p
                a.append(mk("M", root, ()))
            else:
                a.append(p)
        return self.eval(path, a, cells)

    # ------------------------------------------------------------ evaluation of one body
    def rpo(self, f):
        k = (f.path, f.promoted)
        if k in self._rpo:
            return self._rpo[k]
        order, seen = [], set()
        st = [(0, iter(f.succ(0)))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen and f.blocks[s]:
                    seen.add(s)
                    st.append((s, iter(f.succ(s))))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        r = {b: i for i, b in enumerate(order)}
        self._rpo[k] = (order, r)
        return order, r

    def control(self, f):
        """Switch blocks each block is (transitively) control dependent on; panicking and diverging paths are ignored."""
        k = (f.path, f.promoted)
        if k in self._cd:
            return self._cd[k]
        order, rank = self.rpo(f)
        live = set()            # blocks that can reach a return
        pred = {}
        for b in order:
            for s in f.succ(b):
                if s in rank:
                    pred.setdefault(s, set()).add(b)
        st = [b for b in order if f.blocks[b]["t"]["k"] == "return"]
        while st:
            b = st.pop()
            if b not in live:
                live.add(b)
                st += pred.get(b, ())
        succ = {b: [s for s in f.succ(b) if s in live] for b in live}
        nodes = [b for b in order if b in live]
        full = frozenset(nodes)
        pd = {b: (frozenset([b]) if not succ[b] else full) for b in nodes}
        ch = True
        while ch:
            ch = False
            for b in reversed(nodes):
                if succ[b]:
                    n = frozenset.intersection(*[pd[s] for s in succ[b]]) | {b}
                    if n != pd[b]:
                        pd[b] = n
                        ch = True
        cd = {b: set() for b in nodes}
        for a in nodes:
            if len(succ[a]) > 1 and f.blocks[a]["t"]["k"] == "switch":
                for s in succ[a]:
                    for b in pd[s]:
                        if b not in pd[a] or b == a:
                            cd[b].add(a)
        ch = True
        while ch:
            ch = False
            for b in nodes:
                n = set(cd[b])
                for a in cd[b]:
                    n |= cd[a]
                if n != cd[b]:
                    cd[b] = n
                    ch = True
        # blocks on a cycle
        reach = {b: set(succ[b]) for b in nodes}
        ch = True
        while ch:
            ch = False
            for b in reversed(nodes):
                n = set(reach[b])
                for x in succ[b]:
                    n |= reach[x]
                if len(n) != len(reach[b]):
                    reach[b] = n
                    ch = True
        cd[None] = {b for b in nodes if b in reach[b]}
        self._cd[k] = cd
        return cd

    def eval(self, path, args, cells=None, body=None):
        cells = cells or {}
        key = (path, body.promoted if body else None, tuple(args),
               tuple(sorted(((str(k[:2]), k, v.id) for k, v in cells.items()), key=lambda x: x[0])))
        r = self.memo.get(key)
        if r is not None:
            return r
        f = body or self.F.fns[path]
        self.evals += 1
        if self.evals > self.max_evals:
            raise Incomplete("evaluation budget exceeded in %s" % path)
        self.visited.add(path)
        self.stack.append(path)
        try:
            r = self._eval(f, args, cells)
        finally:
            self.stack.pop()
        self.memo[key] = r
        return r

    def _eval(self, f, args, cells):
        order, rank = self.rpo(f)
        env = dict(cells)
        for i, a in enumerate(args):
            env[i + 1] = a
        ins = {0: State(env, frozenset())}
        visits = {}
        work = {0}
        edges = {}     # block -> {predecessor: latest state on that edge}
        heads = {s for b in order for s in f.succ(b) if s in rank and rank[s] <= rank[b]}
        while work:
            b = min(work, key=lambda x: rank[x])
            work.discard(b)
            visits[b] = visits.get(b, 0) + 1
            if visits[b] > 60:
                self.notes.append("no convergence in %s bb%d" % (f.path, b))
                continue
            out = {}
            for s, st in (self.block(f, b, ins[b].copy(), None) if b in ins else ()):
                if s in rank:
                    out[s] = st
            for s in f.succ(b):
                if s not in rank:
                    continue
                es = edges.setdefault(s, {})
                st = out.get(s)
                if s in heads or s == 0:
                    if rank[s] > rank[b]:       # the ways in
                        es = edges.setdefault(s, {})
                        if st is None:
                            if es.pop(b, None) is not None and not es and s != 0:
                                ins.pop(s, None)
                                work.add(s)
                        else:
                            es[b] = st
                    if st is None:
                        continue
                    if s not in ins:
                        ins[s] = st
                        work.add(s)
                    else:
                        n = self.join(f, s, ins[s], st, visits.get(s, 0), rank[s] <= rank[b])
                        if n is not None:
                            ins[s] = n
                            work.add(s)
                    continue
                # not a loop header: the entry state is the join of the latest state of every edge
                if st is None:
                    if es.pop(b, None) is None:
                        continue
                    if not es:      # no edge leads here any more
                        ins.pop(s, None)
                        work.add(s)
                        continue
                else:
                    es[b] = st
                cur = None
                for p in sorted(es, key=lambda x: rank[x]):
                    cur = es[p] if cur is None else (self.join(f, s, cur, es[p], 0, False) or cur)
                o = ins.get(s)
                if o is None or o.facts != cur.facts or o.env.keys() != cur.env.keys() or \
                        any(o.env[k] is not v for k, v in cur.env.items()):
                    ins[s] = cur
                    work.add(s)
        # recording pass
        sites = {}
        rets = []
        cd = self.control(f)
        sw, mine = {}, {}
        for b in order:
            if b in ins:
                st = ins[b].copy()
                mine[b] = {}
                self._sw = None
                self.block(f, b, st, mine[b])
                if f.blocks[b]["t"]["k"] == "switch":
                    sw[b] = self._sw
                if f.blocks[b]["t"]["k"] == "return":
                    rets.append(st)
        for b, ss in mine.items():
            cs = frozenset(sw[x] for x in cd.get(b, ()) if sw.get(x) is not None)
            for s in ss.values():
                if cs:
                    s.conds = s.conds | cs
                if b in cd[None]:
                    s.loop = True
                self.rec(sites, s)
        r = Result()
        r.sites = list(sites.values())
        if not rets:
            r.ret = None
            r.cells = {}
            r.facts = frozenset()
            return r
        st = rets[0]
        for o in rets[1:]:
            n = self.join(f, -1, st, o, 0, False)
            st = n or st
        keep = frozenset(x for x in st.facts)
        r.ret = st.env.get(0, UNIT)
        # a returned reference into the frame is read out
        r.ret = self._outref(r.ret, st)
        r.cells = {k: self._outref(v, st) for k, v in st.env.items() if isinstance(k, tuple) and k in cells}
        r.facts = keep
        return r

    def _outref(self, t, st):
        if t.op == "M":
            if t.a[0][0] == "l":
                return self.read_path(st.env.get(t.a[0][1], mk("W", "dead")), t.a[1])
            return t
        if t.op == "G":
            return t
        if t.op in ("Pos",):
            return mk("Pos", self._outref(t.a[0], st))
        if t.op == "Phi":
            return Phi([(self._outref(u, st), f) for u, f in t.a])
        if t.op == "A":
            return mk("A", t.a[0], t.a[1], *[(n, self._outref(v, st)) for n, v in t.a[2:]])
        return t

    # ------------------------------------------------------------ join
    def join(self, f, blk, s1, s2, n, back):
        f1, f2 = s1.facts, s2.facts
        e1, e2 = s1.env, s2.env
        common = f1 & f2
        # facts over a consumed iterator's element hold vacuously while the other side has not started
        for k, v1 in e1.items():
            v2 = e2.get(k)
            if v2 is None or v1 is v2:
                continue
            if v2.op == "I" and v2.a[0] is v1:
                common = common | self._over(v1, f2 - common)
            elif v1.op == "I" and v1.a[0] is v2:
                common = common | self._over(v2, f1 - common)
        d1 = frozenset(x for x in f1 - common if x.op != "fresh")
        d2 = frozenset(x for x in f2 - common if x.op != "fresh")
        if back and (f.path, blk) not in self._loopcoll:
            its = {v.a[0] for k, v in e2.items() if v.op == "I" and k in e1 and e1[k] is v.a[0]}
            self._loopcoll[(f.path, blk)] = its.pop() if len(its) == 1 else None
        env = {}
        changed = common != f1
        for k, v1 in e1.items():
            v2 = e2.get(k)
            if v2 is None:
                changed = True
                continue
            if v1 is v2:
                env[k] = v1
                continue
            v = self.join_val(f, blk, k, v1, v2, d1, d2, n, back)
            env[k] = v
            if v is not v1:
                changed = True
        if not changed:
            return None
        return State(env, common)

    def _over(self, c, fs):
        es = frozenset().union(*[t.atoms for t, _ in elems(c)]) if elems(c) else frozenset()
        es = es & frozenset(t for t, _ in elems(c)) or es
        return frozenset(x for x in fs if x.atoms & es)

    def breaks(self, f, head):
        """Whether the loop can be left early for the code after it (leaving the function altogether does not count)."""
        k = (f.path, f.promoted, head)
        if k in self._breaks:
            return self._breaks[k]
        order, rank = self.rpo(f)
        pred = {}
        for b in order:
            for x in f.succ(b):
                if x in rank:
                    pred.setdefault(x, set()).add(b)
        loop, st = {head}, [b for b in pred.get(head, ()) if rank[b] >= rank[head]]
        while st:
            b = st.pop()
            if b not in loop:
                loop.add(b)
                st += pred.get(b, ())
        live, st = set(), [b for b in order if f.blocks[b]["t"]["k"] == "return"]
        while st:
            b = st.pop()
            if b not in live:
                live.add(b)
                st += pred.get(b, ())
        exits = sorted([(rank[b], x) for b in loop for x in f.succ(b) if x in live and x not in loop])

        def after(b):
            seen, st = set(), [b]
            while st:
                b = st.pop()
                if b not in seen and b in live and b not in loop:
                    seen.add(b)
                    st += f.succ(b)
            return {b for b in seen if f.blocks[b]["t"]["k"] in ("call", "switch") or any(x[0] == "=" for x in f.blocks[b]["s"])}
        sets = [after(x) for x in dict.fromkeys(x for _, x in exits)]
        r = any(sets[0] & y for y in sets[1:]) if sets else False
        self._breaks[k] = r
        return r

    def accumulate(self, f, blk, v1, v2, d2):
        """v1 at the head of a loop and v1 plus something at its end: a sum, or a count, over what the loop goes through."""
        if v1.op not in ("K", "C", "B") or v1.op == "C" and v1.a[0] not in ("sum", "count") or v1.op == "B" and not (
                v1.a[0] == "Add" and v1.a[2].op == "C" and v1.a[2].a[0] in ("sum", "count")):
            return None
        coll = self._loopcoll.get((f.path, blk))
        if coll is None or self.breaks(f, blk):
            return None
        add = []
        for x, g in alts(v2):
            if x is v1:
                continue
            if x.op != "B" or x.a[0] != "Add":
                return None
            if x.a[1] is v1:
                add.append((x.a[2], g | d2))
            elif x.a[2] is v1:
                add.append((x.a[1], g | d2))
            else:
                return None
        if not add:
            return None
        acc = v1 if v1.op == "C" else v1.a[2] if v1.op == "B" else None
        init = v1.a[1] if v1.op == "B" else None if v1.op == "C" else v1
        one = all(x.op == "K" and str(x.a[1]) == "1" for x, _ in add)
        es = elems(coll)
        known = frozenset(x for x, _ in es)
        if one:
            add = [(x, h | _gate(g, x)) for _, g in add for x, h in es]
        elif any(not (x.atoms & known) and not any(e in x.atoms or e is x for e in known) for x, _ in add):
            return None
        else:
            add = [(x, _gate(g, x) | frozenset().union(*[h for e, h in es if e in x.atoms or e is x])) for x, g in add]
        kind = "count" if one else "sum"
        if acc is not None and acc.a[0] != kind:
            return None
        have = list(acc.a[1].a) if acc is not None else []
        names = {x for x, _ in have}
        if not all(x in names for x, _ in add):
            have += [(x, g) for x, g in add if x not in names]
        t = mk("C", kind, S(have))
        if init is not None and str(init.a[1] if init.op == "K" else "") not in ("0", "0.0"):
            t = mk("B", "Add", init, t)
        return t

    DISC = ("Pos", "Neg", "A", "Not", "Is", "Maybe", "Next", "Pop")

    def join_val(self, f, blk, k, v1, v2, d1, d2, n, back):
        if v2.op == "I" and v2.a[0] is v1:
            return v2
        if v1.op == "I" and v1.a[0] is v2:
            return v1
        if v1.op == "Arr":
            v1 = S(elems(v1))
        if v2.op == "Arr":
            v2 = S(elems(v2))
        if v1.op == "G" or v2.op == "G":
            if v1.op == "G" and v2.op == "G":
                return mk("G", self.join_val(f, blk, k, v1.a[0], v2.a[0], d1, d2, n, back))
        if v1.op == "M" or v2.op == "M":
            return mk("W", f.path, blk, str(k))
        if back:
            t = self.accumulate(f, blk, v1, v2, d2)
            if t is not None:
                return t
        if n > 5:
            w = mk("W", f.path, blk, str(k))
            if v1.op == "S" and v2.op == "S" and n <= 40:
                base = {t for t, _ in v1.a}
                extra = [(t, g) for t, g in v2.a if t not in base]
                if extra:
                    # what is known of each element left out is known of the one standing for them
                    g = None
                    for t, h in extra:
                        h = frozenset(replace(x, t, w) for x in h if x.size < 3000)
                        g = h if g is None else g & h
                    return S(list(v1.a) + [(w, g)])
                return S(list(v1.a) + list(v2.a))
            if v1.op == "S" or v2.op == "S":
                return S([(w, frozenset())])
            return w
        if v1.op == "Clo" and v2.op == "Clo" and v1.a[0] == v2.a[0]:
            return mk("Clo", v1.a[0], *[a if a is b else self.join_val(f, blk, k, a, b, d1, d2, n, back)
                                        for a, b in zip(v1.a[1:], v2.a[1:])])
        if v1.op == "A" and v2.op == "A" and v1.a[:2] == v2.a[:2] and len(v1.a) == len(v2.a) and len(v1.a) > 2:
            return mk("A", v1.a[0], v1.a[1], *[(x[0], x[1] if x[1] is y[1] else self.join_val(
                f, blk, k, x[1], y[1], d1, d2, n, back)) for x, y in zip(v1.a[2:], v2.a[2:])])
        if v1.op == "U" or v2.op == "U":
            b1 = v1.a[0] if v1.op == "U" else v1
            b2 = v2.a[0] if v2.op == "U" else v2
            if b1 is b2:
                names = {x for x, _ in (v1.a[1:] if v1.op == "U" else ())} | \
                    {x for x, _ in (v2.a[1:] if v2.op == "U" else ())}
                out = []
                for nm in sorted(names):
                    x, y = field(v1, nm), field(v2, nm)
                    out.append((nm, x if x is y else self.join_val(f, blk, k, x, y, d1, d2, n, back)))
                return mk("U", b1, *out)
        if len(d1) > 12 and not self._disc(v1):
            d1 = frozenset()
        if len(d2) > 12 and not self._disc(v2):
            d2 = frozenset()
        if v1.op == "S" or v2.op == "S":
            if all(v.op in ("S", "C", "F", "E", "P", "I", "W") for v in (v1, v2)):
                it = []
                for v, d in ((v1, d1), (v2, d2)):
                    for t, g in elems(v):
                        it.append((t, g | _gate(d, t)))
                return S(it)
        return Phi([(v1, d1), (v2, d2)])

    def _disc(self, v):
        if v.op == "Phi":
            return any(self._disc(u) for u, _ in v.a)
        return v.op in self.DISC or (v.op == "K" and v.a[0] == "bool")

    # ------------------------------------------------------------ places
    def resolve(self, env, place):
        """('cell', root, path) or ('val', term)."""
        cur = ("cell", place[0], ())
        for p in place[1:]:
            if p == "*":
                v = self.read(env, cur)
                if v.op == "G":
                    v = v.a[0]
                if v.op == "M":
                    cur = ("cell", self.rootkey(v.a[0]), v.a[1])
                else:
                    cur = ("val", v)
                continue
            if p[0] == "f" and p[2] in TRANSPARENT:
                if p[2] != "std::boxed::Box" or self.read(env, cur).op == "M":
                    continue
            if p[0] == "f":
                step = str(p[3]) if p[2] == "closure" or (p[1].startswith("_ref__") or p[2].startswith("{closure")
                                                         or "{closure" in p[2]) else p[1]
            elif p[0] == "v":
                step = ("v", p[1])
            else:
                step = ("[]", None)
            if cur[0] == "cell":
                cur = ("cell", cur[1], cur[2] + (step,))
            else:
                cur = ("val", self.read_path(cur[1], (step,)) if not (isinstance(step, tuple) and step[0] == "v")
                       else mk("VV", cur[1], step[1]))
        return cur

    @staticmethod
    def rootkey(root):
        return root[1] if root[0] == "l" else root

    @staticmethod
    def mkM(root, path):
        return mk("M", ("l", root) if isinstance(root, int) else root, path)

    def read(self, env, cur):
        if cur[0] == "val":
            return cur[1] if cur[1].op != "VV" else cur[1].a[0]
        v = env.get(cur[1])
        if v is None:
            return mk("W", "uninit")
        return self.read_path(v, cur[2])

    def read_path(self, t, path):
        i = 0
        while i < len(path):
            s = path[i]
            i += 1
            if t.op == "G":
                t = t.a[0]
            if t.op == "VV":
                base, var = t.a
                t = self.vfield(base, var, s)
                continue
            if isinstance(s, tuple):
                if s[0] == "v":
                    if i < len(path):
                        t = self.vfield(t, s[1], path[i])
                        i += 1
                else:
                    t = elem(t) if s[1] is None else mk("C", "get", t, s[1])
            else:
                if t.op == "M":      # through a reference stored in a field
                    return mk("W", "mref")
                t = field(t, s)
        return t

    def vfield(self, t, var, name):
        if var in POSV:
            if t.op == "Next":
                return elem(t.a[0])
            if t.op == "Pop":
                return elem(t.a[0])
            return payload(narrow(t, "POS"))
        if var in NEGV:
            return K("err", None)
        t = narrow(t, var)
        if t.op == "A":
            return field(t, name)
        if t.op == "Phi":
            return Phi([(field(u, name) if u.op == "A" else mk("F", mk("V", u, var), name), g) for u, g in t.a])
        return mk("F", mk("V", t, var), name)

    def write_path(self, t, path, v):
        if not path:
            return v
        if t.op == "G":
            return mk("G", self.write_path(t.a[0], path, v))
        s, rest = path[0], path[1:]
        if t.op == "Phi" and not (isinstance(s, tuple) and s[0] == "[]"):
            return Phi([(self.write_path(u, path, v), g) for u, g in t.a])
        if isinstance(s, tuple):
            if s[0] == "v":
                if s[1] in POSV:
                    return mk("Pos", self.write_path(payload(t), rest[1:], v))
                if t.op == "A":
                    return self.write_path(t, rest, v)
                return t
            old = self.read_path(t, (s,))
            nv = self.write_path(old, rest, v)
            if s[1] is not None:
                nv = mk("A", "tuple", "", ("0", s[1]), ("1", nv))
            return S(list(elems(t)) + [(nv, frozenset())])
        return set_field(t, s, self.write_path(field(t, s), rest, v))

    def write(self, f, st, place, v, sites, span):
        if self.watch_fields and sites is not None and len(place) > 1 and place[-1] != "*" and place[-1][0] == "f" \
                and (place[-1][2], place[-1][1]) in self.watch_fields:
            self.rec(sites, Site("field", place[-1][2], ((place[-1][1], self.val(st.env, v)),), st.facts, f.path, span))
        cur = self.resolve(st.env, place)
        if cur[0] == "cell":
            root, path = cur[1], cur[2]
            if not path:
                st.env[root] = v
            else:
                st.env[root] = self.write_path(st.env.get(root, mk("W", "uninit")), path, v)
            if not isinstance(root, int):
                self.store(f, st, self.place_of_path(root[2], path), v, sites, span)
        else:
            self.store(f, st, cur[1], v, sites, span)

    def store(self, f, st, pt, v, sites, span):
        if self.watch_store(pt):
            if sites is not None:
                self.rec(sites, Site("store", "store", (pt, v), st.facts, f.path, span))
            st.facts = st.facts | {ev("store", pt, self.val(st.env, v))}

    def place_of_path(self, base, path):
        t = base
        for s in path:
            if isinstance(s, tuple):
                if s[0] == "v":
                    continue
                t = mk("At", t, s[1]) if s[1] is not None else mk("E", t)
            else:
                t = mk("F", t, s)
        return t

    def placeterm(self, f, m):
        """A term naming the place a mutable reference points to."""
        if m.op != "M":
            return m.a[0] if m.op == "G" else m
        root, path = m.a
        base = mk("L", f.path, root[1]) if root[0] == "l" else root[2]
        return self.place_of_path(base, path)

    def part(self, f, st, coll, idx, sites, span, fr):
        """A slice of a collection: reported like the iterator adaptor taking a part."""
        if sites is not None and "RangeFull" not in str(fr.get("args")) and self.watch_call("slice::take"):
            self.rec(sites, Site("call", "slice::take", (coll, idx), st.facts, f.path, span))

    def rec(self, sites, s):
        sites.setdefault(s.key(), s)

    # ------------------------------------------------------------ operands, rvalues
    def operand(self, f, st, o):
        if o[0] in ("C", "M"):
            v = self.read(st.env, self.resolve(st.env, o[1]))
            if v.op == "Phi" and len(v.a) == 1:
                st.facts = st.facts | v.a[0][1]
                v = v.a[0][0]
            return v
        k = o[1]
        if "bool" in k:
            return TRUE if k["bool"] else FALSE
        if "int" in k:
            return K("int", k["int"])
        if "float" in k:
            return K("float", k["float"])
        if "str" in k:
            return K("str", k["str"])
        if "bytes" in k:
            return K("bytes", str(k["bytes"]))
        if "fn" in k:
            self.fnrefs[k["fn"]["path"] + "|" + str(k["fn"].get("selfty"))] = k["fn"]
            return K("fn", k["fn"]["path"] + "|" + str(k["fn"].get("selfty")))
        if "promoted" in k:
            pr = k["promoted"]
            key = (pr[0], pr[1]) if isinstance(pr, list) else (f.path, pr)
            b = self.F.proms.get(key)
            if b is not None:
                r = self.eval(b.path, [], {}, b)
                if r.ret is not None:
                    return r.ret
            return mk("W", "promoted", str(key))
        if "variant" in k:
            ty = k["ty"].split("<")[0]
            c = vclass(ty, k["variant"])
            return NEG if c == "NEG" else mk("A", ty, k["variant"])
        if "uneval" in k:
            return K("const", str(k["uneval"]))
        if "static" in k:
            return K("static", str(k["static"]))
        if k.get("ty") == "()":
            return UNIT
        if k.get("zst") and "{closure" in k["ty"]:
            pass
        return K("other", k.get("ty"))

    def rvalue(self, f, st, r, sites, span):
        k = r[0]
        if k == "use":
            return self.operand(f, st, r[1])
        if k == "ref" or k == "rawptr":
            cur = self.resolve(st.env, r[1])
            if r[2] and cur[0] == "cell":
                v = self.read(st.env, cur)
                if v.op == "M" and False:
                    return v
                return self.mkM(cur[1], cur[2])
            v = self.read(st.env, cur)
            if v.op == "Phi" and len(v.a) == 1:
                st.facts = st.facts | v.a[0][1]
                v = v.a[0][0]
            return v
        if k == "cast":
            v = self.operand(f, st, r[1])
            a, b = BITS.get(r[4] if len(r) > 4 else ""), BITS.get(r[2])
            if a and b and (b < a or r[4][0] == "f") and r[2][0] != "f" and v.op != "K":
                return mk("C", "as " + r[2], self.flat(v))      # not every value survives
            return v
        if k == "bin":
            a = self.operand(f, st, r[2])
            b = self.operand(f, st, r[3])
            o = r[1]
            if o.endswith("WithOverflow"):
                if self.asserts and sites is not None:
                    self.rec(sites, Site("arith", o[:-12], (a, b, K("str", r[4] if len(r) > 4 else "")), st.facts, f.path, span))
                return mk("A", "tuple", "", ("0", self.arith(o[:-12], a, b)), ("1", FALSE))
            return self.arith(o, a, b, len(r) > 4 and r[4] in ("f32", "f64"))
        if k == "un":
            a = self.operand(f, st, r[2])
            if r[1] == "Not":
                return Not(a)
            return mk("C", "un" + r[1], a)
        if k == "discr":
            t = self.read(st.env, self.resolve(st.env, r[1]))
            return mk("D", t, tuple((v, vclass(r[2], n)) for v, n in r[3]))
        if k == "agg":
            ops = [self.operand(f, st, o) for o in r[2]]
            h = r[1]
            if h[0] == "array":
                return mk("Arr", *ops) if 0 < len(ops) <= 16 else S([(o, frozenset()) for o in ops])
            if h[0] == "tuple":
                if not ops:
                    return UNIT
                return mk("A", "tuple", "", *[(str(i), o) for i, o in enumerate(ops)])
            if h[0] == "closure":
                return mk("Clo", h[1], *ops)
            if h[0] == "adt":
                adt, var, names = h[1], h[2], h[3]
                c = vclass(adt, var)
                if c == "NEG":
                    return NEG
                if c == "POS":
                    return mk("Pos", ops[0] if ops else UNIT)
                return self.aggregate(f, st, adt, var, names, ops, sites, span)
            return mk("C", "agg", *ops)
        if k == "repeat":
            return S([(self.operand(f, st, r[1]), frozenset())])
        return mk("W", "rv", k)

    def aggregate(self, f, st, adt, var, names, ops, sites, span):
        # the parts of a default value count where they are used, in the structure they are copied to
        if adt in self.watch_adts and sites is not None and not f.path.endswith("::default"):
            self.rec(sites, Site("agg", adt, tuple((n, self.val(st.env, o)) for n, o in zip(names, ops)), st.facts,
                                 f.path, span))
        return mk("A", adt, var, *list(zip(names, ops)))

    def ctors(self):
        if not hasattr(self, "_ctors"):
            self._ctors = {}
            for p, a in self.F.adts.items():
                for v in a["variants"]:
                    n = [x["name"] for x in v["fields"]]
                    self._ctors[p + "::" + v["name"]] = (p, v["name"], n)
                    if len(a["variants"]) == 1:
                        self._ctors.setdefault(p, (p, v["name"], n))
        return self._ctors

    def _emptiness(self, o, a, b):
        """A comparison of a length that asks whether there is anything."""
        if b.op == "C" and a.op == "K":
            o = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(o, o)
            a, b = b, a
        if not (a.op == "C" and a.a[0] in ("len", "count") and len(a.a) == 2 and b.op == "K" and b.a[0] == "int"):
            return None
        n = str(b.a[1])
        e = mk("C", "is_empty", a.a[1])
        if n == "0" and o in ("Eq", "Le") or n == "1" and o == "Lt":
            return e
        if n == "0" and o in ("Ne", "Gt") or n == "1" and o == "Ge":
            return Not(e)
        return None

    def arith(self, o, a, b, fl=False):
        if fl and o in ("Ge", "Le"):      # not the negation of < : both are false for NaN
            if o == "Ge":
                a, b = b, a
            if a.op == b.op == "K" and a.a[0] == b.a[0] == "float":
                try:
                    return K("bool", float(a.a[1]) <= float(b.a[1]))
                except ValueError:
                    pass
            return mk("B", "Le", a, b)
        e = self._emptiness(o, a, b)
        if e is not None:
            return e
        if o == "Eq":
            return Eq(a, b)
        if o == "Ne":
            return Not(Eq(a, b))
        if o in ("Lt", "Gt", "Le", "Ge") and a.op == b.op == "K" and a.a[0] == b.a[0] == "int" and \
                isinstance(a.a[1], int) and isinstance(b.a[1], int):
            x, y = a.a[1], b.a[1]
            return K("bool", {"Lt": x < y, "Gt": x > y, "Le": x <= y, "Ge": x >= y}[o])
        if fl and o in ("Lt", "Gt") and a.op == b.op == "K" and a.a[0] == b.a[0] == "float":
            try:
                x, y = float(a.a[1]), float(b.a[1])
                return K("bool", x < y if o == "Lt" else x > y)
            except ValueError:
                pass
        if o == "Gt":
            return mk("B", "Lt", b, a)
        if o == "Ge":
            return Not(mk("B", "Lt", a, b))
        if o == "Le":
            return Not(mk("B", "Lt", b, a))
        if o == "Div" and not fl:
            return mk("B", "Quo", a, b)      # of whole numbers
        if o in ("Add", "Mul", "BitAnd", "BitOr", "BitXor") and a.id > b.id:
            a, b = b, a
        if o in ("BitAnd", "BitOr"):
            a, b = (self._told(x) for x in (a, b))
        if o == "BitAnd":
            if a is FALSE or b is FALSE:
                return FALSE
            if a is TRUE:
                return b
            if b is TRUE:
                return a
        if o == "BitOr":
            if a is TRUE or b is TRUE:
                return TRUE
            if a is FALSE:
                return b
            if b is FALSE:
                return a
        return mk("B", o, a, b)

    @staticmethod
    def transpose(v):
        out = []
        for x, g in alts(v):
            if x.op == "Neg":
                out.append((mk("Pos", NEG), g))
            elif x.op == "Pos":
                for y, h in alts(x.a[0]):
                    k = class_of(y)
                    if k == "NEG":
                        out.append((NEG, g | h))
                    elif k == "POS":
                        out.append((mk("Pos", mk("Pos", payload(y))), g | h))
                    else:
                        out.append((mk("Pos", mk("Pos", y)), g | h | {fact(y, "POS")}))
                        out.append((NEG, g | h | {fact(y, "NEG")}))
            else:
                out.append((x, g))
        return Phi(out)

    @staticmethod
    def _told(t):
        """A condition the oracle decides, as the constant it is."""
        if not terms.ORACLE[0]:
            return t
        neg = t.op == "Not"
        cl = terms.ORACLE[0](t.a[0] if neg else t)
        if cl in ((True,), (False,)):
            return TRUE if cl[0] != neg else FALSE
        return t

    # ------------------------------------------------------------ blocks
    def block(self, f, b, st, sites):
        blk = f.blocks[b]
        for s in blk["s"]:
            if s[0] == "=":
                v = self.rvalue(f, st, s[2], sites, s[3])
                self.write(f, st, s[1], v, sites, s[3])
            elif s[0] == "dead":
                # keep: references into dead locals are not dereferenced any more; drop to keep joins small
                st.env.pop(s[1], None)
        t = blk["t"]
        k = t["k"]
        if k == "assert" and self.asserts and sites is not None and t["m"] != "Overflow" and t.get("c"):
            self.rec(sites, Site("assert", t["m"], (self.operand(f, st, t["c"]), K("bool", bool(t["e"]))), st.facts, f.path, t.get("sp") or f.span))
        if k in ("goto", "drop", "assert"):
            return [(t["t"], st)]
        if k == "switch":
            return self.switch(f, t, st)
        if k == "call":
            ok = self.call(f, t, st, sites)
            if not ok or t["t"] is None:
                return []
            return [(t["t"], st)]
        return []

    def branch(self, st, term, cls):
        """State refined by term being cls, or None."""
        n = State(st.env, st.facts)
        if term.op == "Next":
            c = term.a[0]
            if cls == "POS":
                es = self._es(c)
                keep, add = [], []
                for x in n.facts:
                    if x.op == "fresh":
                        if x.a[0] is not c:
                            keep.append(x)
                    elif x.op == "all":
                        if x.a[0] is c:
                            keep.append(x)
                            add.append(x.a[1])
                        elif not (x.atoms & es - self._es(x.a[0])):
                            keep.append(x)   # its own element is bound by the quantifier
                    elif not (x.atoms & es) or self.bound(x, c, es):
                        keep.append(x)
                fs = frozenset(keep) | frozenset(add)
                a = elems(c)
                if not a:
                    return None
                g = a[0][1]
                for _, h in a[1:]:
                    g = g & h
                n.facts = fs | g
                return n
            es = self._es(c)
            fresh = mk("fresh", c)
            more = {fact(mk("C", "is_empty", self.flat(c)), True)} if fresh in n.facts and not (c.op == "S" and not c.a) else set()
            n.facts = (n.facts - {fresh}) | frozenset(mk("all", c, x) for x in n.facts if x.op in ("is", "ev") and x.atoms & es) | more
            return n
        if term.op == "Pop":
            if cls == "POS":
                c = term.a[0]
                es = self._es(c)
                n.facts = frozenset(x for x in n.facts if not (x.atoms & es))
                a = elems(c)
                if not a:
                    return None
                g = a[0][1]
                for _, h in a[1:]:
                    g = g & h
                n.facts = n.facts | g
            return n
        r = assume(term, cls, st.facts)
        if r is None:
            return None
        for x in r[0]:
            if contradicts(st.facts, x):
                return None
        n.facts = st.facts | r[0] | (disj(term, cls, st.facts) if term.op == "Phi" else frozenset())
        if term.op in ("Phi", "Maybe") and r[1] is not term:
            env = None
            for k, v in st.env.items():
                if v is term:
                    if env is None:
                        env = dict(st.env)
                    env[k] = r[1]
            if env is not None:
                n.env = env
        return n

    def bound(self, x, c, es):
        """Whether what a fact says of elements of a collection that is gone through is about all of them."""
        return False

    def _es(self, c):
        out = set()
        for t, _ in elems(c):
            for u, _ in alts(t):
                out |= self._own(u)
        return frozenset(out)

    def _own(self, u):
        """Atoms that stand for the element itself."""
        if u.op in ("E", "W"):
            return {u}
        if u.op == "A":
            s = set()
            for _, v in u.a[2:]:
                s |= self._own(v)
            return s
        if u.op in ("F", "V"):
            return self._own(u.a[0])
        if u.op == "C":
            s = set()
            for v in u.a[1:]:
                if isinstance(v, T):
                    s |= self._own(v)
            return s
        if u.op == "Arr":
            s = set()
            for v in u.a:
                s |= self._own(v)
            return s
        if u.op in ("Phi", "S"):
            s = set()
            for v, _ in u.a:
                s |= self._own(v)
            return s
        return set()

    def switch(self, f, t, st):
        v = self.operand(f, st, t["d"])
        self._sw = self.val(st.env, v.a[0]) if v.op == "D" else self.val(st.env, v)
        out = []

        def go(target, n):
            if n is not None:
                out.append((target, State(dict(n.env), n.facts)))
        if v.op == "D":
            term, table = v.a
            cls = dict(table)
            listed = []
            for val, target in t["ts"]:
                c = cls.get(val)
                listed.append(c)
                go(target, self.branch(st, term, c) if c is not None else st)
            rest = [c for _, c in table if c not in listed]
            if len(set(rest)) == 1:
                go(t["o"], self.branch(st, term, rest[0]))
            elif rest:
                n = st
                for c in listed:
                    if n is not None and c is not None and c not in ("POS", "NEG"):
                        n = self.branch(n, term, "!" + c)
                go(t["o"], n)
            return self._merge_targets(f, out)
        if t["ty"] == "bool":
            for val, target in t["ts"]:
                go(target, self.branch(st, v, bool(int(val))))
            vals = {bool(int(x[0])) for x in t["ts"]}
            for x in (True, False):
                if x not in vals:
                    go(t["o"], self.branch(st, v, x))
            return self._merge_targets(f, out)
        n = st
        for val, target in t["ts"]:
            c = self._emptiness("Eq", v, K("int", int(val)))
            if c is None:
                c = Eq(v, K("int", int(val)))
            go(target, self.branch(st, c, True))
            if n is not None:
                n = self.branch(n, c, False)
        go(t["o"], n)
        return self._merge_targets(f, out)

    def _merge_targets(self, f, out):
        d = {}
        for t, s in out:
            if t in d:
                d[t] = self.join(f, -2, d[t], s, 0, False) or d[t]
            else:
                d[t] = s
        return list(d.items())

    # ------------------------------------------------------------ values at calls
    def val(self, env, v):
        """Replace references into the frame by the values they point to."""
        if v.op == "M":
            return self.val(env, self.read(env, ("cell", self.rootkey(v.a[0]), v.a[1])))
        if v.op == "G":
            return v.a[0]
        if v.op == "A":
            if any(x[1].op in ("M", "G", "A", "Pos") for x in v.a[2:]):
                return mk("A", v.a[0], v.a[1], *[(n, self.val(env, x)) for n, x in v.a[2:]])
        if v.op == "Pos":
            return mk("Pos", self.val(env, v.a[0]))
        if v.op == "Arr":
            return mk("Arr", *[self.val(env, x) for x in v.a])
        return v

    def localize(self, f, st, v, m, depth=0):
        """Replace references to frame places by references to pseudo-cells of the callee."""
        if v.op == "M":
            if v not in m:
                root = ("p", "c%d" % len(m), self.placeterm(f, v))
                val = self.read(st.env, ("cell", self.rootkey(v.a[0]), v.a[1]))
                val = self.localize(f, st, val, m, depth + 1)
                m[v] = (root, val)
            return mk("M", m[v][0], ())
        if v.op == "G":
            return v.a[0]
        if v.op == "Clo":
            if any(x.op in ("M", "Clo", "A", "G") for x in v.a[1:]):
                return mk("Clo", v.a[0], *[self.localize(f, st, x, m, depth + 1) for x in v.a[1:]])
        if v.op == "A":
            if any(x[1].op in ("M", "Clo", "A", "G") for x in v.a[2:]):
                return mk("A", v.a[0], v.a[1], *[(n, self.localize(f, st, x, m, depth + 1)) for n, x in v.a[2:]])
        if v.op == "Arr":
            return mk("Arr", *[self.localize(f, st, x, m, depth + 1) for x in v.a])
        return v

    def delocalize(self, v, back):
        if v.op == "M":
            for orig, (root, _) in back.items():
                if root == v.a[0]:
                    return mk("M", orig.a[0], orig.a[1] + v.a[1])
            return v
        if v.op == "Pos":
            return mk("Pos", self.delocalize(v.a[0], back))
        if v.op == "Clo":
            return mk("Clo", v.a[0], *[self.delocalize(x, back) for x in v.a[1:]])
        if v.op == "A":
            return mk("A", v.a[0], v.a[1], *[(n, self.delocalize(x, back)) for n, x in v.a[2:]])
        if v.op == "Arr":
            return mk("Arr", *[self.delocalize(x, back) for x in v.a])
        if v.op == "Phi":
            return Phi([(self.delocalize(u, back), g) for u, g in v.a])
        return v

    def strip(self, st, v):
        if v.op == "Phi" and len(v.a) == 1:
            st.facts = st.facts | v.a[0][1]
            return v.a[0][0]
        return v

    def invoke(self, f, st, path, args, sites, span, extra=frozenset(), quiet=False):
        """Evaluate a local function or closure body; updates frame cells; returns (ret, facts) or None."""
        m = {}
        a = [self.localize(f, st, v, m) for v in args]
        cells = {root: val for root, val in m.values()}
        r = self.eval(path, a, cells)
        base = st.facts | extra
        if sites is not None:
            for s in r.sites:
                self.rec(sites, Site(s.kind, s.name, s.args, s.facts | base, s.fn, s.span,
                                     ((f.path, tuple(span)),) + s.chain, s.recv, s.conds, s.loop))
        if r.ret is None:
            return None
        for orig, (root, val) in m.items():
            nv = r.cells.get(root, val)
            if nv is not val:
                rk, p = self.rootkey(orig.a[0]), orig.a[1]
                nv = self.delocalize(nv, m)
                if p:
                    st.env[rk] = self.write_path(st.env.get(rk, mk("W", "uninit")), p, nv)
                else:
                    st.env[rk] = nv
        return self.delocalize(r.ret, m), r.facts

    def callfn(self, f, st, fv, args, sites, span, extra=frozenset()):
        """Call a function value. Returns (ret, facts) or None if it never returns."""
        fv = self.val(st.env, fv) if fv.op in ("M", "G") else fv
        if fv.op == "Clo":
            p = fv.a[0]
            if p in self.F.fns and p not in self.stack and not self.opaque(p):
                return self.invoke(f, st, p, [fv] + list(args), sites, span, extra)
            return mk("C", p, *args), frozenset()
        if fv.op == "K" and fv.a[0] == "fn":
            fr = self.fnrefs[fv.a[1]]
            tmp = State(st.env, st.facts | extra)
            r = self.call_ref(f, tmp, fr, list(args), sites, span, "")
            st.env = tmp.env
            if r is None:
                return None
            return r, tmp.facts - st.facts
        return mk("C", "call", fv, *[self.val(st.env, a) for a in args]), frozenset()

    # ------------------------------------------------------------ calls
    def call(self, f, t, st, sites):
        args = [self.operand(f, st, a) for a in t["a"]]
        fr = t.get("f")
        span = t["fsp"]
        if fr is None:
            fv = self.operand(f, st, t["fo"])
            r = self.callfn(f, st, fv, args, sites, span)
            if r is None:
                return False
            st.facts = st.facts | r[1]
            ret = r[0]
        else:
            ret = self.call_ref(f, st, fr, args, sites, span, t["dt"])
            if ret is None:
                return False
        if t["t"] is not None:
            self.write(f, st, t["d"], ret, sites, span)
        return True

    def call_ref(self, f, st, fr, args, sites, span, dt):
        """Returns the result term (or None when the call never returns); updates st."""
        path = fr["path"]
        sp = short(path)
        t2 = two(path).replace("ParallelIterator::", "Iterator::").replace("IntoParallelIterator", "IntoIterator")
        # functions watched by the rule
        target = None
        if not (fr.get("trait") in ("std::clone::Clone", "std::cmp::PartialEq", "std::ops::Deref")):
            c = self.F.resolve(fr)
            if len(c) == 1 and fr.get("rk") == "item" and t2 not in ("Fn::call", "FnMut::call_mut", "FnOnce::call_once"):
                target = c[0]
            elif fr.get("rk") in ("virtual", "none") or fr.get("trait"):
                target = self.inline_virtual(sp)
        name = short(target) if target else sp
        if self.watch_call(name) and sites is not None:
            self.rec(sites, Site("call", name, tuple(self.evarg(f, st, a) for a in args), st.facts, f.path, span, (),
                                 self.placeterm(f, args[0]) if args else None))
        evf = None
        if self.event(name):
            evf = ev(name, *[self.evarg(f, st, a) for a in args])
        if target and not self.opaque(name) and target not in self.stack and len(self.stack) < 45:
            r = self.invoke(f, st, target, args, sites, span)
            if r is None:
                return None
            st.facts = st.facts | r[1]
            ret = r[0]
        elif target:
            ret = self.opaque_call(f, st, name, args, sites, span)
            ty = self.F.fns[target].locals[0].replace("std::", "").replace("core::", "")
            if self.nest and ty.startswith(("result::Result<option::Option<", "option::Option<option::Option<",
                                            "option::Option<result::Result<", "result::Result<result::Result<")):
                ret = Phi([(mk("Pos", mk("F", ret, "ok")), frozenset([fact(ret, "POS")])), (NEG, frozenset([fact(ret, "NEG")]))])
        elif fr.get("local") and fr.get("trait"):
            ret = self.opaque_call(f, st, sp, args, sites, span)
        else:
            ret = self.model(f, st, t2, sp, fr, args, sites, span, dt)
        if evf is not None and ret is not None:
            # events of fallible calls count whatever their result: gate with the result class where known
            st.facts = st.facts | {evf}
        return ret

    def evarg(self, f, st, a):
        if a.op == "M" and not self.vals:
            return self.placeterm(f, a)
        return self.val(st.env, a)

    def opaque_call(self, f, st, name, args, sites, span):
        vals = [self.val(st.env, a) for a in args]
        known = self.sym(name, vals)
        if known is not None:
            return known
        for a in args:
            if a.op == "Clo" or (a.op == "Phi" and any(u.op == "Clo" for u, _ in a.a)):
                self.run_unknown_closure(f, st, a, vals, sites, span)
        if any(short(x) == name for x in self.stack):
            # a recursive call: what it is lent for writing only accumulates, and would keep its result from stabilising
            ret = mk("C", name, *[mk("W", "lent", *span[:2]) if a.op == "M" else self.flat(v) for a, v in zip(args, vals)])
        else:
            ret = mk("C", name, *[self.flat(v) for v in vals])
        for a in args:
            if a.op == "M":
                rk = self.rootkey(a.a[0])
                old = self.read(st.env, ("cell", rk, a.a[1]))
                nv = S([(mk("E", mk("C", "after:" + name, self.flat(old), *[self.flat(v) for v in vals])), frozenset())]) \
                    if old.op == "S" else mk("C", "after:" + name, self.flat(old), *[self.flat(v) for v in vals])
                st.env[rk] = self.write_path(st.env.get(rk, mk("W", "uninit")), a.a[1], nv)
        return ret

    def flat(self, v):
        """Bound the size of terms put under opaque calls."""
        if v.op == "Clo":
            return K("clo", v.a[0])
        if v.depth > 24 or v.size > 4000:
            return mk("W", "deep", v.op, v.id % 1000003)
        return v

    def run_unknown_closure(self, f, st, clo, vals, sites, span):
        for u, _ in alts(clo):
            if u.op == "Clo" and u.a[0] in self.F.fns and u.a[0] not in self.stack:
                n = self.F.fns[u.a[0]].argc - 1
                e = elem(vals[0]) if vals and vals[0].op not in ("Clo", "K") else mk("W", "arg")
                self.invoke(f, st, u.a[0], [u] + [e] * n, sites, span)

    # ------------------------------------------------------------ models of the standard library
    def model(self, f, st, t2, sp, fr, args, sites, span, dt):
        env = st.env
        A = args
        v0 = self.val(env, A[0]) if A else None

        if t2 in ("Fn::call", "FnMut::call_mut", "FnOnce::call_once"):
            tup = self.val(env, A[1])
            n = len(tup.a) - 2 if tup.op == "A" else 0
            xs = [x for _, x in A[1].a[2:]] if A[1].op == "A" else [field(tup, str(i)) for i in range(n)]
            r = self.callfn(f, st, A[0], xs, sites, span)
            if r is None:
                return None
            st.facts = st.facts | r[1]
            return r[0]
        if t2 == "Box::new_uninit":
            root = ("l", ("box", f.path, tuple(span)))
            env[root[1]] = WDEAD
            return mk("M", root, ())
        if t2 in SQLMODEL:
            return self.sql(f, st, t2, sp, A, sites, span)
        if t2 in RGUARD:
            return v0
        if t2 in GUARD:
            return mk("G", v0)
        if t2 == "DerefMut::deref_mut":
            if A[0].op == "M":
                v = self.read(env, ("cell", self.rootkey(A[0].a[0]), A[0].a[1]))
                if v.op == "G":
                    return v.a[0]
                if v.op == "M":
                    return v
            return A[0]
        if t2 in ("slice::iter_mut", "Vec::iter_mut", "HashMap::values_mut", "HashMap::iter_mut", "Option::as_mut"):
            if A[0].op == "M" and t2 != "Option::as_mut":
                return mk("IM", A[0])
            return A[0] if A[0].op == "M" else v0
        if t2 == "IntoIterator::into_iter" and A[0].op == "M":
            v = self.read(env, ("cell", self.rootkey(A[0].a[0]), A[0].a[1]))
            if "&mut" in (fr.get("selfty") or "") and "Iter" not in (fr.get("selfty") or ""):
                return mk("IM", A[0])
            return v
        if t2 in ("FromResidual::from_residual", "__private::format_err", "Error::msg", "error::msg", "Error::new",
                  "anyhow::Error"):
            return NEG if t2.startswith("FromResidual") else K("err", None)
        if t2 in ("anyhow::Ok", "v1::Some", "v1::Ok", "Option::Some", "Result::Ok", "ControlFlow::Continue"):
            return mk("Pos", A[0])
        if t2 in ("v1::Err", "Result::Err", "ControlFlow::Break"):
            return NEG
        ctor = self.ctors().get(sp)
        if ctor:
            return self.aggregate(f, st, ctor[0], ctor[1], ctor[2], A, sites, span)
        if t2 == "Arc::make_mut" or t2 in ("Option::as_deref_mut", "AsMut::as_mut", "BorrowMut::borrow_mut",
                                           "RwLock::get_mut", "Mutex::get_mut"):
            return A[0]
        if t2 in ("Option::take", "mem::take"):
            if A[0].op == "M":
                self.setcell(st, A[0], NEG if t2 == "Option::take" else EMPTY_S)
            return v0
        if t2 in IDENT:
            return v0 if A[0].op in ("M", "G") else A[0]
        if t2 in ("Option::unwrap", "Result::unwrap", "Option::expect", "Result::expect"):
            return self.unwrap(st, v0)
        if t2 == "Iterator::next":
            return self.next(f, st, A[0])
        if t2 in ("Vec::pop", "VecDeque::pop_front", "VecDeque::pop_back", "BinaryHeap::pop"):
            if self.popsym:
                w = mk("C", "popped", K("worklist", "%s:%s" % (f.path.split("::")[-1], span[1])))
                self.taken.setdefault(w, set()).update(x for x, _ in elems(v0))
                return w
            c = v0
            return mk("Pop", c)
        if t2 in ADDERS:
            i = ADDERS[t2][0]
            x = self.val(env, A[i])
            if A[0].op == "M":
                old = coll_of(v0) if v0.op != "S" else v0
                self.setcell(st, A[0], S(list(old.a) + [(x, _gate(st.facts, x))]))
            return mk("C", t2, v0 if v0.size < 400 else self.evarg(f, st, A[0]), self.flat(x))
        if t2 in MAPADD:
            k, x = self.val(env, A[1]), self.val(env, A[2])
            if A[0].op == "M":
                p = mk("A", "tuple", "", ("0", k), ("1", x))
                self.setcell(st, A[0], S(list(elems(v0)) + [(p, _gate(st.facts, p))]))
            return mk("C", t2, v0 if v0.size < 400 else self.evarg(f, st, A[0]), self.flat(k), self.flat(x))
        if t2 in ("Vec::extend", "Extend::extend", "Vec::append", "Vec::extend_from_slice", "HashSet::extend",
                  "Iterator::collect_into"):
            x = self.val(env, A[1])
            if A[0].op == "M":
                it = list(elems(v0))
                for u, g in elems(x):
                    it.append((u, g | _gate(st.facts, u)))
                self.setcell(st, A[0], S(it))
            return UNIT
        if t2 in ("Vec::retain", "HashSet::retain", "HashMap::retain", "Vec::retain_mut", "VecDeque::retain"):
            it = []
            for u, g in elems(v0):
                xs = [u] if "Map" not in t2 else [field(u, "0"), field(u, "1")]
                r = self.closure_on(f, st, A[1], xs, g, sites, span)
                if r is None:
                    continue
                q = assume(r[0], True, st.facts | g | r[1])
                if q is not None:
                    it.append((u, g | q[0] | r[1]))
                if sites is not None and self.watch_call("keeps"):
                    self.rec(sites, Site("keeps", "keeps", (A[0] if A[0].op != "M" else v0, r[0]), st.facts | g | r[1], f.path, span))
            nv = S(it)
            if A[0].op == "M":
                self.setcell(st, A[0], nv)
            elif it:
                # shared state: from here on every element of it satisfies the predicate
                fs = frozenset.intersection(*[g for _, g in it])
                st.facts = st.facts | frozenset(mk("all", v0, x) for x in fs if x.op == "is")
            return UNIT
        if t2 in ("HashMap::entry", "BTreeMap::entry"):
            return mk("Entry", A[0], self.val(env, A[1]))
        if t2 in ("VacantEntry::insert", "VacantEntry::insert_entry"):
            e = A[0]
            while e.op in ("F", "V") and isinstance(e.a[0], T):
                e = e.a[0]
            if e.op == "Entry" and e.a[0].op == "M":
                m, k = e.a[:2]
                p = mk("A", "tuple", "", ("0", k), ("1", self.val(env, A[1])))
                self.setcell(st, m, S(list(elems(self.val(env, m))) + [(p, _gate(st.facts, p))]))
                return mk("M", m.a[0], m.a[1] + (("[]", k),))
        if t2 in ("Entry::or_default", "Entry::or_insert", "Entry::or_insert_with", "Entry::and_modify"):
            e = A[0]
            if e.op == "Entry":
                m, k = e.a[:2]
                if t2 == "Entry::and_modify":
                    if m.op == "M":
                        return e
                    old = mk("C", "get", m, k)
                    r = self.closure_on(f, st, A[1], [old], frozenset([fact(old, "POS")]), sites, span)
                    new = [x.a[2] for x in (r[1] if r else ()) if x.op == "ev" and x.a[0] == "store" and x.a[1] is old]
                    return mk("Entry", m, k, *new[:1])
                if m.op == "M":
                    return mk("M", m.a[0], m.a[1] + (("[]", k),))
                old = mk("C", "get", m, k)
                if len(e.a) > 2 and t2 == "Entry::or_insert":
                    self.store(f, st, old, Phi([(e.a[2], frozenset([fact(old, "POS")])),
                                                (self.val(env, A[1]), frozenset([fact(old, "NEG")]))]), sites, span)
                return old
            return mk("W", "entry")
        if t2 in ("HashMap::get_mut", "Vec::get_mut", "slice::get_mut", "slice::last_mut", "slice::first_mut",
                  "BTreeMap::get_mut"):
            if A[0].op == "M":
                k = self.val(env, A[1]) if len(A) > 1 and "Map" in t2 else None
                return mk("Maybe", mk("M", A[0].a[0], A[0].a[1] + (("[]", k),)))
            return mk("C", "get", v0, *[self.val(env, a) for a in A[1:]])
        if t2 in ("IndexMut::index_mut",):
            if A[0].op == "M":
                return mk("M", A[0].a[0], A[0].a[1] + (("[]", None),))
            return elem(v0)
        if t2 == "Index::index":
            idx = self.val(env, A[1])
            if "Range" in str(fr.get("args")) :
                self.part(f, st, v0, idx, sites, span, fr)
                return v0
            if "Map" in (fr.get("selfty") or ""):
                return mk("C", "get", v0, idx)
            return elem(v0)
        if t2 in ("HashMap::get", "BTreeMap::get", "slice::get", "Vec::get"):
            if t2 in ("slice::get", "Vec::get"):
                if "Range" in str(fr.get("args")):
                    self.part(f, st, v0, self.val(env, A[1]), sites, span, fr)
                    return mk("Maybe", v0)
                return mk("Maybe", elem(v0))
            if v0.op == "S" and not v0.a:
                return NEG
            return mk("C", "get", v0, self.flat(self.val(env, A[1])))
        if t2 in ("HashMap::contains_key", "HashSet::contains", "slice::contains", "Vec::contains", "BTreeMap::contains_key",
                  "BTreeSet::contains"):
            if v0.op == "S" and not v0.a:
                return FALSE
            return mk("C", "contains", v0, self.flat(self.val(env, A[1])))
        if t2 in ("HashMap::keys", "HashMap::into_keys", "BTreeMap::keys"):
            return self.project(v0, "0", "keys")
        if t2 in ("HashMap::values", "HashMap::into_values", "BTreeMap::values"):
            return self.project(v0, "1", "values")
        if t2 in ("slice::first", "slice::last", "Iterator::last", "Iterator::nth", "Iterator::min", "Iterator::max",
                  "Iterator::min_by_key", "Iterator::max_by_key", "Iterator::min_by", "Iterator::max_by",
                  "IteratorRandom::sample_one", "IndexedRandom::choose", "IteratorRandom::choose", "slice::choose"):
            if len(A) > 1 and A[1].op == "Clo":
                self.closure_on(f, st, A[1], [elem(v0)] * (2 if t2.endswith("_by") else 1), frozenset(), sites, span)
            if self.asserts and t2 in ("slice::first", "slice::last"):
                return mk("C", t2, v0)
            if t2 in ("slice::first", "slice::last") and v0.op in ("F", "P", "C"):
                e = mk("C", "is_empty", self.flat(v0))
                return Phi([(mk("Pos", elem(v0)), frozenset([fact(e, False)])), (NEG, frozenset([fact(e, True)]))])
            return mk("Maybe", elem(v0)) if elems(v0) else NEG
        if t2 in ("IteratorRandom::sample", "IndexedRandom::sample", "SliceRandom::choose_multiple"):
            return S(elems(v0))
        if t2 == "IndexedRandom::sample_weighted" or t2.endswith("choose_multiple_weighted"):
            for a in A[1:]:
                if a.op == "Clo":
                    self.closure_on(f, st, a, [elem(v0)], frozenset(), sites, span)
            return mk("Pos", S(elems(v0)))
        if t2 in ("slice::chunks", "slice::windows", "slice::chunk_by", "slice::chunks_exact"):
            for a in A[1:]:
                if a.op == "Clo":
                    self.closure_on(f, st, a, [elem(v0), elem(v0)], frozenset(), sites, span)
            if self.asserts and len(A) == 2:
                return mk("C", t2.split("::")[1], v0, self.val(env, A[1]))
            return S([(v0, frozenset())])
        if t2 == "Iterator::enumerate":
            return S([(mk("A", "tuple", "", ("0", mk("C", "index", v0)), ("1", u)), g) for u, g in elems(v0)])
        if t2 == "Iterator::zip":
            w = self.val(env, A[1])
            return S([(mk("A", "tuple", "", ("0", elem(v0)), ("1", elem(w))), frozenset())])
        if t2 == "Iterator::chain":
            return S(list(elems(v0)) + list(elems(self.val(env, A[1]))))
        if t2.startswith("Iterator::") and t2.split("::")[1] in self.ITER:
            return getattr(self, "it_" + t2.split("::")[1])(f, st, v0, A, sites, span, dt, fr)
        if t2 in ("Option::map", "Result::map", "Option::and_then", "Result::and_then", "Option::map_or",
                  "Result::map_or", "Option::is_some_and", "Result::is_ok_and", "Option::filter", "Option::inspect",
                  "Option::map_or_else", "Result::map_or_else", "Option::is_none_or", "Option::unwrap_or_else",
                  "Result::unwrap_or_else", "Option::or_else", "Option::unwrap_or", "Result::unwrap_or", "Option::or",
                  "Option::unwrap_or_default", "Result::unwrap_or_default", "Option::zip", "Result::or_else"):
            return self.option(f, st, t2.split("::")[1], v0, A, sites, span, dt)
        if t2 in ("Option::is_some", "Result::is_ok"):
            return Is(v0, "POS")
        if t2 in ("Option::is_none", "Result::is_err"):
            return Not(Is(v0, "POS"))
        if t2 in ("Option::transpose", "Result::transpose"):
            return self.transpose(v0)
        if t2 in ("PartialEq::eq",):
            return Eq(v0, self.val(env, A[1]))
        if t2 in ("PartialEq::ne",):
            return Not(Eq(v0, self.val(env, A[1])))
        if t2 in ("PartialOrd::lt", "PartialOrd::gt", "PartialOrd::le", "PartialOrd::ge"):
            return self.arith({"lt": "Lt", "gt": "Gt", "le": "Le", "ge": "Ge"}[t2.split("::")[1]], v0,
                              self.val(env, A[1]))
        if t2 in ("Add::add", "Sub::sub", "Mul::mul", "Div::div"):
            return self.arith(t2.split("::")[0], v0, self.val(env, A[1]))
        if t2 == "Not::not" or t2 == "__private::not":
            return Not(v0)
        if t2 == "bool::then" or t2 == "bool::then_some":
            if t2.endswith("then"):
                q = assume(v0, True, st.facts)
                if q is None:
                    return NEG
                r = self.closure_on(f, st, A[1], [], q[0], sites, span)
                if r is None:
                    return NEG
                return Phi([(mk("Pos", r[0]), q[0] | r[1]), (NEG, frozenset([fact(v0, False)]))])
            return Phi([(mk("Pos", A[1]), frozenset([fact(v0, True)])), (NEG, frozenset([fact(v0, False)]))])
        if t2 == "iter::once":
            return S([(v0, frozenset())])
        if t2 == "iter::empty":
            return EMPTY_S
        if t2 == "slice::concat" and v0.op == "Arr" and "Vec<" in dt.split("String")[0]:
            return S([x for u in v0.a for x in elems(self.val(env, u))])
        if t2 == "Default::default":
            return self.default(fr.get("selfty") or (fr.get("args") or [""])[0])
        if t2 in ("Vec::new", "HashMap::new", "HashSet::new", "BTreeMap::new", "VecDeque::new", "BTreeSet::new",
                  "Vec::with_capacity", "HashMap::with_capacity", "HashSet::with_capacity", "BinaryHeap::new"):
            return EMPTY_S
        if t2 in ("Vec::is_empty", "HashSet::is_empty", "HashMap::is_empty", "slice::is_empty", "VecDeque::is_empty"):
            if v0.op == "S" and not v0.a:
                return TRUE
            return mk("C", "is_empty", self.flat(v0))
        if t2 in ("Vec::len", "HashSet::len", "HashMap::len", "slice::len", "VecDeque::len", "BTreeMap::len", "BTreeSet::len"):
            if v0.op == "S" and not v0.a:
                return ZERO
            return mk("C", "len", self.flat(v0))
        if t2 in ("Box::new_uninit",):
            return mk("W", "uninit")
        if t2 in ("mem::replace", "mem::swap"):
            if t2 == "mem::replace" and A[0].op == "M":
                self.setcell(st, A[0], self.val(env, A[1]))
            return v0
        if t2 in ("mem::drop", "process::exit"):
            return UNIT
        if t2 in NOCHANGE:
            for a in A[1:]:
                if a.op == "Clo":
                    self.closure_on(f, st, a, [elem(v0)] * max(1, self.F.fns[a.a[0]].argc - 1)
                                    if a.a[0] in self.F.fns else [], frozenset(), sites, span)
            if "remove" in t2 or "String" in t2 or "PathBuf" in t2:
                ret = mk("C", t2, self.flat(v0), *[self.flat(self.val(env, a)) for a in A[1:]])
                if "String" in t2 or "PathBuf" in t2:
                    if A[0].op == "M":
                        self.setcell(st, A[0], ret)
                    return UNIT
                return ret
            if "clear" in t2 and A[0].op == "M":
                self.setcell(st, A[0], EMPTY_S)
            if t2 == "Read::read_to_string":
                if A[1].op == "M":
                    self.setcell(st, A[1], mk("C", "contents", v0))
                return mk("C", t2, v0)
            if t2.startswith("Write") or t2.startswith("Formatter"):
                return mk("C", t2, *[self.flat(self.val(env, a)) for a in A])
            return UNIT
        # unknown external function
        self.unknown[t2] = self.unknown.get(t2, 0) + 1
        vals = [self.val(env, a) for a in A]
        for a in A:
            if a.op == "Clo":
                self.run_unknown_closure(f, st, a, vals, sites, span)
        ret = mk("C", t2, *[self.flat(v) for v in vals])
        for a in A:
            if a.op == "M" and t2 not in PURE:
                old = self.read(env, ("cell", self.rootkey(a.a[0]), a.a[1]))
                if old.op not in ("C", "P", "F", "W"):
                    self.setcell(st, a, mk("C", "after:" + t2, self.flat(old)))
        return ret

    def setcell(self, st, m, v):
        rk, p = self.rootkey(m.a[0]), m.a[1]
        if p:
            st.env[rk] = self.write_path(st.env.get(rk, mk("W", "uninit")), p, v)
        else:
            old = st.env.get(rk)
            if old is not None and old.op == "M":
                return self.setcell(st, old, v)
            st.env[rk] = v

    def project(self, m, fld, name):
        if m.op == "Arr":
            m = S(elems(m))
        if m.op == "S":
            return S([(field(u, fld), g) for u, g in m.a])
        return mk("C", name, m)

    def unwrap(self, st, v):
        if v.op in ("Next", "Pop"):
            n = self.branch(st, v, "POS")
            if n is not None:
                st.facts = n.facts
            return elem(v.a[0])
        r = assume(v, "POS", st.facts)
        if r is None:
            return None
        st.facts = st.facts | r[0]
        return payload(r[1])

    def next(self, f, st, m):
        if m.op != "M":
            return mk("Maybe", elem(m))
        rk, p = self.rootkey(m.a[0]), m.a[1]
        v = self.read(st.env, ("cell", rk, p))
        if v.op == "M":
            return self.next(f, st, v)
        if v.op == "IM":
            x = v.a[0]
            return mk("Maybe", mk("M", x.a[0], x.a[1] + (("[]", None),)))
        if v.op != "I":
            v2 = mk("I", v)
            # nothing has been taken from it yet
            st.facts = st.facts | {mk("fresh", v)}
            if p:
                st.env[rk] = self.write_path(st.env[rk], p, v2)
            else:
                st.env[rk] = v2
            v = v2
        c = v.a[0]
        return mk("Next", c)

    def default(self, ty):
        if ty == "bool":
            return FALSE
        for k in ("std::vec::Vec<", "std::collections::HashSet<", "std::collections::HashMap<", "std::collections::BTreeMap<",
                  "std::sync::Arc<std::collections::HashSet<", "std::collections::VecDeque<", "ustr::UstrSet",
                  "ustr::UstrMap"):
            if ty.startswith(k):
                return EMPTY_S
        if ty.startswith("std::option::Option<"):
            return NEG
        if ty in ("usize", "isize", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"):
            return K("int", 0)
        p = "<%s as std::default::Default>::default" % ty
        if p in self.F.fns and p not in self.stack and not self.opaque(p) and self.F.fns[p].argc == 0:
            r = self.eval(p, [], {})
            if r.ret is not None:
                return r.ret
        return mk("C", "default", K("ty", ty))

    def sql(self, f, st, t2, sp, A, sites, span):
        """Query calls: the rows term stands for the selected rows, closures are applied to one of them."""
        vals = [self.val(st.env, a) for a in A]
        clo = [a for a in A if a.op == "Clo" or (a.op == "K" and a.a[0] == "fn")]
        args = [self.flat(v) for v, a in zip(vals, A) if a not in clo]
        call = mk("C", sp, *args)
        if t2 == "Rows::next":
            row = mk("E", vals[0])
            return Phi([(mk("Pos", mk("Maybe", row)), frozenset((fact(call, "POS"),))), (NEG, frozenset((fact(call, "NEG"),)))])
        if not clo:
            return call
        r = self.callfn(f, st, clo[0], [mk("E", call)], sites, span)
        if r is None:
            return call
        x = self.val(st.env, r[0])
        if t2.endswith("query_row"):
            it = [(u, g | (frozenset((fact(call, "POS"),)) if u.op != "Neg" else frozenset())) for u, g in alts(x)]
            return Phi(it + [(NEG, frozenset((fact(call, "NEG"),)))])
        return Phi([(mk("Pos", S([(x, frozenset())])), frozenset((fact(call, "POS"),))), (NEG, frozenset((fact(call, "NEG"),)))])

    # ---- closures over elements
    def closure_on(self, f, st, clo, xs, gate, sites, span):
        """Apply a closure under extra facts; returns (ret, facts) or None."""
        return self.callfn(f, st, clo, xs, sites, span, gate)

    def closure_it(self, f, st, clo, xs, gate, sites, span):
        """A closure applied to every element of a collection."""
        if sites is None:
            return self.closure_on(f, st, clo, xs, gate, sites, span)
        mine = {}
        r = self.closure_on(f, st, clo, xs, gate, mine, span)
        for s in mine.values():
            s.loop = True
            self.rec(sites, s)
        return r

    ITER = ("filter", "map", "flat_map", "filter_map", "find_map", "find", "any", "all", "fold", "for_each", "flatten", "collect",
            "partition", "count", "sum", "try_for_each", "position", "inspect", "product", "try_fold", "map_while",
            "skip_while")

    def it_filter(self, f, st, c, A, sites, span, dt, fr):
        it = []
        for u, g in elems(c):
            r = self.closure_it(f, st, A[1], [u], g, sites, span)
            if r is None:
                continue
            q = assume(r[0], True, st.facts | g | r[1])
            if q is not None:
                it.append((u, g | q[0] | self._rel(r[1], u) | disj(r[0], True, st.facts | g | r[1])))
        return S(it)

    it_skip_while = it_filter

    def _rel(self, fs, u):
        return frozenset(x for x in fs if x.op in ("is", "or"))

    def it_map(self, f, st, c, A, sites, span, dt, fr):
        it = []
        for u, g in elems(c):
            r = self.closure_it(f, st, A[1], [u], g, sites, span)
            if r is None:
                continue
            x = self.val(st.env, r[0])
            if c.op == "IM":
                x = r[0]
            it.append((x, g | self._rel(r[1], u)))
        return S(it)

    it_inspect = it_map

    def it_inspect(self, f, st, c, A, sites, span, dt, fr):
        for u, g in elems(c):
            self.closure_it(f, st, A[1], [u], g, sites, span)
        return c

    def it_flat_map(self, f, st, c, A, sites, span, dt, fr):
        it = []
        for u, g in elems(c):
            r = self.closure_it(f, st, A[1], [u], g, sites, span)
            if r is None:
                continue
            x = self.val(st.env, r[0])
            for w, h in elems(x):
                it.append((w, g | h | self._rel(r[1], u)))
        return S(it)

    def it_filter_map(self, f, st, c, A, sites, span, dt, fr):
        it = []
        for u, g in elems(c):
            r = self.closure_it(f, st, A[1], [u], g, sites, span)
            if r is None:
                continue
            q = assume(self.val(st.env, r[0]), "POS", st.facts | g | r[1])
            if q is not None:
                for w, h in alts(payload(q[1])):
                    it.append((w, g | h | q[0] | self._rel(r[1], u)))
        return S(it)

    it_map_while = it_filter_map

    def it_find_map(self, f, st, c, A, sites, span, dt, fr):
        s = self.it_filter_map(f, st, c, A, sites, span, dt, fr)
        return mk("Maybe", elem(s)) if s.a else NEG

    def it_find(self, f, st, c, A, sites, span, dt, fr):
        s = self.it_filter(f, st, c, A, sites, span, dt, fr)
        return mk("Maybe", elem(s)) if s.a else NEG

    def it_position(self, f, st, c, A, sites, span, dt, fr):
        for u, g in elems(c):
            self.closure_on(f, st, A[1], [u], g, sites, span)
        return mk("C", "position", self.flat(c), self.flat(A[1]))

    def _quant(self, f, st, c, A, sites, span, want):
        """∀-facts that follow when the predicate is `want` for every element; and whether it can be otherwise."""
        if c.op == "M":
            c = self.val(st.env, c)
        facts = None
        trueposs, falseposs = False, False
        other = None
        es = elems(c)
        for u, g in es:
            r = self.closure_on(f, st, A[1], [u], g, sites, span)
            if r is None:
                continue
            q = assume(r[0], want, st.facts | g | r[1])
            o = assume(r[0], not want, st.facts | g | r[1])
            if o is not None:
                falseposs = True
                fs = o[0] | self._rel(r[1], u) | g
                other = fs if other is None else other & fs
            if q is not None:
                trueposs = True
                fs = q[0] | self._rel(r[1], u) | g
                facts = fs if facts is None else facts & fs
        facts = facts or frozenset()
        self._ex = frozenset([mk("ex", c, other)]) if other else frozenset()
        return frozenset(facts) | frozenset(mk("all", c, x) for x in facts), trueposs, falseposs

    def _each_of(self, f, st, c, A, sites, span, stop):
        """any (stop on true) or all (stop on false) over a few given values: one after the other."""
        out, left = [], frozenset()
        for u in c.a:
            r = self.closure_on(f, st, A[1], [u], left, sites, span)
            if r is None:
                return Phi(out) if out else None
            q = assume(r[0], stop, st.facts | left | r[1])
            if q is not None:
                out.append((TRUE if stop else FALSE, left | r[1] | q[0]))
            o = assume(r[0], not stop, st.facts | left | r[1])
            if o is None:
                return Phi(out)
            left = left | r[1] | o[0]
        return Phi(either(out) + [(FALSE if stop else TRUE, left)])

    def _member(self, f, st, c, A, span, neg):
        """any(|x| x == y) and all(|x| x != y) ask whether the collection contains y."""
        es = elems(c) if c.op != "IM" else ()
        if len(es) != 1 or es[0][1] or es[0][0].op != "E" or A[1].op != "Clo":
            return None
        u = es[0][0]
        r = self.closure_on(f, st, A[1], [u], frozenset(), None, span)
        if r is None:
            return None
        t = Not(r[0]) if neg else r[0]
        if t.op != "B" or t.a[0] != "Eq" or u not in t.a[1:]:
            return None
        y = t.a[2] if t.a[1] is u else t.a[1]
        if y is u or u in y.atoms:
            return None
        return mk("C", "contains", u.a[0], self.flat(y))

    def it_any(self, f, st, c, A, sites, span, dt, fr):
        if c.op == "Arr" and 1 < len(c.a) < 5:
            return self._each_of(f, st, c, A, sites, span, True)
        m = self._member(f, st, c, A, span, False)
        if m is not None:
            return m
        fs, no, yes = self._quant(f, st, c, A, sites, span, False)
        out = [(FALSE, fs)]
        if yes:
            atom = mk("C", "any", self.flat(c), self.flat(A[1]), *self._up(A[1]))
            out = [(FALSE, fs | {fact(atom, False)}), (TRUE, self._ex | {fact(atom, True)})]
        return Phi(out)

    def it_all(self, f, st, c, A, sites, span, dt, fr):
        if c.op == "Arr" and 1 < len(c.a) < 5:
            return self._each_of(f, st, c, A, sites, span, False)
        m = self._member(f, st, c, A, span, True)
        if m is not None:
            return Not(m)
        fs, yes, no = self._quant(f, st, c, A, sites, span, True)
        out = [(TRUE, fs)]
        if no:
            atom = mk("C", "all", self.flat(c), self.flat(A[1]), *self._up(A[1]))
            out = [(TRUE, fs | {fact(atom, True)}), (FALSE, self._ex | {fact(atom, False)})]
        return Phi(out)

    def _up(self, clo):
        if clo.op == "Clo":
            return tuple(x for x in clo.a[1:] if x.op not in ("M", "G", "Clo") and x.size < 200)
        return ()

    def it_fold(self, f, st, c, A, sites, span, dt, fr):
        acc = A[1]
        if acc.op == "K" and c.op != "IM":
            # a sum of what is added for each element
            add = []
            for u, g in elems(c):
                r = self.closure_it(f, st, A[2], [acc, u], g, sites, span)
                if r is None:
                    continue
                for x, h in alts(r[0]):
                    if x is acc:
                        continue
                    if x.op != "B" or x.a[0] != "Add" or acc not in x.a[1:]:
                        add = None
                        break
                    y = x.a[2] if x.a[1] is acc else x.a[1]
                    if y is acc or acc in y.atoms:
                        add = None
                        break
                    add.append((y, g | h | self._rel(r[1], u)))
                if add is None:
                    break
            if add:
                one = all(x.op == "K" and str(x.a[1]) == "1" for x, _ in add)
                if not one or len(elems(c)) == 1:
                    t = mk("C", "count", S([(elems(c)[0][0], g) for _, g in add])) if one else mk("C", "sum", S(add))
                    return t if str(acc.a[1]) in ("0", "0.0") else mk("B", "Add", acc, t)
        for u, g in elems(c):
            for _ in range(2):
                r = self.closure_it(f, st, A[2], [acc, u], g, sites, span)
                if r is None:
                    break
                acc = Phi([(acc, frozenset()), (r[0], frozenset())])
        return acc

    it_try_fold = it_fold

    def it_for_each(self, f, st, c, A, sites, span, dt, fr):
        for u, g in elems(c):
            es = self._es(c)
            r = self.closure_it(f, st, A[1], [u], g, sites, span)
            if r is not None:
                st.facts = st.facts | frozenset(mk("all", c, x) for x in r[1] if x.atoms & es) | \
                    frozenset(x for x in r[1])
        return UNIT

    def it_try_for_each(self, f, st, c, A, sites, span, dt, fr):
        fs = None
        for u, g in elems(c):
            r = self.closure_it(f, st, A[1], [u], g, sites, span)
            if r is None:
                continue
            q = assume(r[0], "POS", st.facts | g | r[1])
            if q is not None:
                x = q[0] | r[1]
                fs = x if fs is None else fs & x
        fs = fs or frozenset()
        es = self._es(c)
        return Phi([(mk("Pos", UNIT), fs | frozenset(mk("all", c, x) for x in fs if x.atoms & es)),
                    (NEG, frozenset([fact(mk("C", "try_for_each", self.flat(c)), "NEG")]))])

    def it_flatten(self, f, st, c, A, sites, span, dt, fr):
        it = []
        opt = any(x in dt for x in ("ReadDir", "walkdir::IntoIter")) or \
            any(x in str(fr.get("args")) + str(fr.get("selfty")) for x in ("ReadDir", "walkdir::IntoIter", "Option<", "Result<"))
        for u, g in elems(c):
            for w, h in alts(u):
                if w.op in ("Pos", "Maybe"):
                    for x, k in alts(w.a[0]):
                        it.append((x, g | h | k))
                elif w.op == "Neg":
                    continue
                elif w.op in ("S", "I", "Arr"):
                    for x, k in elems(w):
                        it.append((x, g | h | k))
                elif opt:
                    it.append((w, g | h | {fact(w, "POS")}))
                else:
                    for x, k in elems(w):
                        it.append((x, g | h | k))
        return S(it)

    def it_collect(self, f, st, c, A, sites, span, dt, fr):
        if c.op == "IM":
            return self.val(st.env, c.a[0])
        if dt.startswith("std::result::Result<") or dt.startswith("std::option::Option<"):
            it, fs, all_pos = [], None, True
            for u, g in elems(c):
                q = assume(u, "POS", st.facts | g)
                if assume(u, "NEG", st.facts | g) is not None:
                    all_pos = False
                if q is None:
                    continue
                for w, h in alts(payload(q[1])):
                    it.append((w, g | h | q[0]))
                fs = q[0] if fs is None else fs & q[0]
            fs = fs or frozenset()
            ok = mk("Pos", S(it))
            if all_pos:
                return ok
            return Phi([(ok, fs | frozenset(mk("all", c, x) for x in fs)),
                        (NEG, frozenset([fact(mk("C", "collect", self.flat(c)), "NEG")]))])
        if c.op == "I":
            return c.a[0]
        return c

    def it_partition(self, f, st, c, A, sites, span, dt, fr):
        yes, no = [], []
        for u, g in elems(c):
            r = self.closure_it(f, st, A[1], [u], g, sites, span)
            if r is None:
                continue
            for want, out in ((True, yes), (False, no)):
                q = assume(r[0], want, st.facts | g | r[1])
                if q is not None:
                    out.append((u, g | q[0] | self._rel(r[1], u)))
        return mk("A", "tuple", "", ("0", S(yes)), ("1", S(no)))

    def it_count(self, f, st, c, A, sites, span, dt, fr):
        return mk("C", "count", self.flat(c))

    def it_sum(self, f, st, c, A, sites, span, dt, fr):
        return mk("C", "sum", self.flat(c))

    def it_product(self, f, st, c, A, sites, span, dt, fr):
        return mk("C", "product", self.flat(c))

    # ---- Option / Result
    def option(self, f, st, name, o, A, sites, span, dt):
        pos = assume(o, "POS", st.facts) if o.op not in ("Next", "Pop") else (frozenset(), mk("Pos", elem(o.a[0])))
        neg = assume(o, "NEG", st.facts) if o.op not in ("Next", "Pop") else (frozenset(), NEG)
        x = payload(pos[1]) if pos is not None else None
        out = []
        tmp = State(st.env, st.facts | (pos[0] if pos else frozenset()))
        if x is not None:
            x = self.strip(tmp, x)
        pf = tmp.facts - st.facts if pos else None

        def call(clo, xs, gate):
            return self.closure_on(f, st, clo, xs, gate, sites, span)
        if name in ("unwrap_or", "unwrap_or_default", "unwrap_or_else"):
            if pos is not None:
                out.append((x, pf))
            if neg is not None:
                if name == "unwrap_or_default":
                    d = self.default(dt)
                    if d.op == "C":          # scalar default: keep the payload only
                        return x if x is not None else d
                    out.append((d, neg[0]))
                elif name == "unwrap_or":
                    out.append((A[1], neg[0]))
                else:
                    n = 0
                    if A[1].op == "Clo" and A[1].a[0] in self.F.fns:
                        n = self.F.fns[A[1].a[0]].argc - 1
                    r = call(A[1], [K("err", None)] * n, neg[0])
                    if r is not None:
                        out.append((r[0], neg[0] | r[1]))
            return Phi(out)
        if name in ("or", "or_else"):
            if pos is not None:
                out.append((mk("Pos", x), pf))
            if neg is not None:
                if name == "or":
                    out.append((A[1], neg[0]))
                else:
                    r = call(A[1], [], neg[0])
                    if r is not None:
                        out.append((r[0], neg[0] | r[1]))
            return Phi(out)
        if name in ("map", "inspect", "zip"):
            if pos is not None:
                if name == "zip":
                    out.append((mk("Pos", mk("A", "tuple", "", ("0", x), ("1", payload(A[1])))), pf))
                else:
                    r = call(A[1], [x], pf)
                    if r is not None:
                        out.append((mk("Pos", self.val(st.env, r[0]) if name == "map" else x), pf | r[1]))
            if neg is not None:
                out.append((NEG, neg[0]))
            return Phi(out)
        if name == "and_then":
            if pos is not None:
                r = call(A[1], [x], pf)
                if r is not None:
                    out.append((r[0], pf | r[1]))
            if neg is not None:
                out.append((NEG, neg[0]))
            return Phi(out)
        if name == "filter":
            if pos is not None:
                r = call(A[1], [x], pf)
                if r is not None:
                    q = assume(r[0], True, st.facts | pf | r[1])
                    if q is not None:
                        out.append((mk("Pos", x), pf | q[0] | r[1]))
            out.append((NEG, frozenset()))
            return Phi(out)
        if name in ("is_some_and", "is_ok_and", "is_none_or"):
            if pos is not None:
                r = call(A[1], [x], pf)
                if r is not None:
                    for u, g in alts(r[0]):
                        out.append((u, pf | g | r[1]))
            if neg is not None:
                out.append((FALSE if name != "is_none_or" else TRUE, neg[0]))
            return Phi(either(out))
        if name in ("map_or", "map_or_else"):
            if neg is not None:
                if name == "map_or":
                    out.append((A[1], neg[0]))
                else:
                    n = 0
                    if A[1].op == "Clo" and A[1].a[0] in self.F.fns:
                        n = self.F.fns[A[1].a[0]].argc - 1
                    r = call(A[1], [K("err", None)] * n, neg[0])
                    if r is not None:
                        out.append((r[0], neg[0] | r[1]))
            if pos is not None:
                r = call(A[2], [x], pf)
                if r is not None:
                    for u, g in alts(r[0]):
                        out.append((u, pf | g | r[1]))
            return Phi(out)
        return mk("C", "option::" + name, self.flat(o))


PURE = set()


def holds(facts, f):
    """Is the fact (or its ∀ form) among the facts?"""
    return f in facts
