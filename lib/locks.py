"""Interprocedural lock analysis over MIR: which locks are held where, what each call may acquire, in which order.

A lock is identified by what it protects: the component trait for shared components, otherwise the (type, field)
holding it. Guards are followed through moves, wrappers, drops and returns; closures are assumed to run at every call
that receives them."""
import re
from facts import short, operands

ACQ = {"read": "R", "write": "W", "lock": "W", "upgradable_read": "U", "read_recursive": "RR"}
TRY = ("try_read", "try_write", "try_lock", "try_read_for", "try_write_for", "try_lock_for", "get_mut", "into_inner", "data_ptr")


def is_lock_path(p):
    s = short(p).split("::")
    return len(s) >= 2 and s[-2] in ("RwLock", "Mutex", "ReentrantMutex", "FairMutex")


def guard_ty(ty):
    return not ty.startswith("&") and ("Guard<" in ty)


class Locks:
    def __init__(self, F, skip_virtual=lambda p: False):
        self.F = F
        self.skip = skip_virtual
        self.dyn = {}
        for f in F.fns.values():
            for l in f.locals:
                for m in re.finditer(r"(?:RwLock|Mutex)<[^<>]*dyn ([\w:]+)", l):
                    self.dyn[m.group(1)] = 1
        for a in F.adts.values():
            for v in a["variants"]:
                for fl in v["fields"]:
                    for m in re.finditer(r"(?:RwLock|Mutex)<[^<>]*dyn ([\w:]+)", fl["ty"]):
                        self.dyn[m.group(1)] = 1
        self.impl_traits = {}
        for im in F.impls:
            if im["trait"] in self.dyn and im["self_adt"]:
                self.impl_traits.setdefault(im["self_adt"], im["trait"])
        self.sum = {}
        self.paths = {}
        self.closure_ops = {}
        for f in F.fns.values():
            for _, s in f.stmts():
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "closure":
                    self.closure_ops[s[2][1][1]] = (f.path, s[2][2])
        self.sites = 0
        self.solve()

    # ------------------------------------------------ access paths
    def local_paths(self, f):
        """local -> access path (root, ((adt, field), ...)) by single definitions."""
        k = f.path
        if k in self.paths:
            return self.paths[k]
        m = {i: (("p", i), ()) for i in range(1, f.argc + 1)}
        for _ in range(6):
            ch = False
            for i, b in enumerate(f.blocks):
                if not b:
                    continue
                for s in b["s"]:
                    if s[0] == "=" and len(s[1]) == 1:
                        r = s[2]
                        src = None
                        if r[0] == "ref" or r[0] == "copyref" or r[0] == "addr":
                            src = r[1]
                        elif r[0] in ("use", "cast") and r[1][0] in ("C", "M"):
                            src = r[1][1]
                        if src is not None:
                            p = self.place_path(m, src)
                            if p and s[1][0] not in m:
                                m[s[1][0]] = p
                                ch = True
                t = b["t"]
                if t["k"] == "call" and t.get("f") and len(t["d"]) == 1 and t["d"][0] not in m and t["a"]:
                    if t["f"]["name"] in ("deref", "deref_mut", "as_ref", "as_mut", "clone", "borrow", "borrow_mut") \
                            and not t["f"].get("local"):
                        a = t["a"][0]
                        if a[0] in ("C", "M"):
                            p = self.place_path(m, a[1])
                            if p:
                                m[t["d"][0]] = p
                                ch = True
            if not ch:
                break
        self.paths[k] = m
        return m

    @staticmethod
    def place_path(m, pl):
        b = m.get(pl[0])
        if b is None:
            return None
        out = list(b[1])
        for e in pl[1:]:
            if isinstance(e, list) and e[0] == "f":
                out.append((e[2] or "", e[1] if e[1] is not None else str(e[3]), e[3]))
        if len(out) > 12:
            return None
        return (b[0], tuple(out))

    def canon(self, content, path):
        """Lock identity, or ('rel', param, path tail, content) when it depends on the caller."""
        m = re.search(r"dyn ([\w:]+)", content)
        if m:
            return m.group(1)
        c0 = content.split("<")[0]
        if c0 in self.impl_traits:
            return self.impl_traits[c0]
        if path:
            for adt, name, _ in reversed(path[1]):
                if not str(name).isdigit() and adt and "{closure" not in adt:
                    return "%s.%s" % (adt.split("<")[0], name)
            if path[0][0] == "p":
                return ("rel", path[0][1], path[1], content)
        return "type:" + content

    # ------------------------------------------------ summaries
    def targets(self, fr):
        if fr is None:
            return []
        out = []
        for p in self.F.resolve(fr):
            if fr.get("rk") != "item" and self.skip(p):
                continue
            out.append(p)
        return out

    def inst(self, f, lk, t, closure=None):
        """Instantiate a lock identity of a callee at call t of f."""
        if isinstance(lk, str):
            return lk
        _, i, tail, content = lk
        m = self.local_paths(f)
        base = None
        if closure is not None:
            # upvar-relative
            own = self.closure_ops.get(closure)
            if i == 1 and tail and own and own[0] == f.path:
                idx = tail[0][2]
                if idx is not None and idx < len(own[1]) and own[1][idx][0] in ("C", "M"):
                    base = self.place_path(m, own[1][idx][1])
                tail = tail[1:]
        elif i - 1 < len(t["a"]):
            a = t["a"][i - 1]
            if a[0] in ("C", "M"):
                base = self.place_path(m, a[1])
        if base is None:
            return "type:" + content
        return self.canon(content, (base[0], base[1] + tail))

    def acquisitions(self, f, t):
        """[(lock, mode, origin)] that the call may block on, and [(lock, mode)] whose guard it returns."""
        fr = t.get("f")
        out, ret = [], []
        if fr is None:
            return out, ret
        if is_lock_path(fr["path"]) and fr["name"] in ACQ:
            m = self.local_paths(f)
            a = t["a"][0]
            path = self.place_path(m, a[1]) if a[0] in ("C", "M") else None
            content = fr["args"][-1] if fr.get("args") else "?"
            lk = self.canon(content, path)
            out.append((lk, ACQ[fr["name"]], (f.path, tuple(t["fsp"]))))
            ret.append((lk, ACQ[fr["name"]]))
            return out, ret
        if is_lock_path(fr["path"]) and fr["name"] in TRY:
            m = self.local_paths(f)
            a = t["a"][0]
            path = self.place_path(m, a[1]) if a[0] in ("C", "M") else None
            ret.append((self.canon(fr["args"][-1] if fr.get("args") else "?", path), "W" if "write" in fr["name"] or "lock" in fr["name"] else "R"))
            return out, ret
        for p in self.targets(fr):
            s = self.sum.get(p)
            if s:
                for lk, md, org in s[0]:
                    out.append((self.inst(f, lk, t), md, org))
                for lk, md in s[1]:
                    ret.append((self.inst(f, lk, t), md))
        cbs = list(fr.get("cb", []))
        for a in t["a"]:
            if a[0] == "K" and "fn" in a[1]:
                for p in self.targets(a[1]["fn"]):
                    s = self.sum.get(p)
                    if s:
                        out += [(lk if isinstance(lk, str) else "type:" + lk[3], md, org) for lk, md, org in s[0]]
        for ty in t.get("at", []):
            pass
        for p in cbs:
            s = self.sum.get(p)
            if s:
                for lk, md, org in s[0]:
                    out.append((self.inst(f, lk, t, closure=p), md, org))
        return out, ret

    def solve(self):
        fns = [f for f in self.F.fns.values()]
        for f in fns:
            self.sum[f.path] = (frozenset(), frozenset())
        users = {}
        for f in fns:
            for g in self.F.callees(f):
                users.setdefault(g, set()).add(f.path)
        work = [f.path for f in fns]
        inw = set(work)
        n = 0
        while work:
            p = work.pop()
            inw.discard(p)
            n += 1
            if n > 60000:
                raise RuntimeError("lock summaries do not converge")
            f = self.F.fns[p]
            acq = {}
            for i, t in f.calls():
                o, _ = self.acquisitions(f, t)
                for lk, md, org in o:
                    acq.setdefault((lk, md), org)
            held = self.flow(f, None)
            old = self.sum[p]
            key = frozenset((a, b) for a, b, _ in old[0])
            new = (frozenset((a, b, o) for (a, b), o in acq.items()), held)
            if frozenset(acq) != key or held != old[1]:
                self.sum[p] = new
                for u in users.get(p, ()):
                    if u not in inw:
                        inw.add(u)
                        work.append(u)

    def flow(self, f, visit):
        """Forward may-analysis of held guards; calls visit(block, term, held, acquired); returns guards held at return."""
        if not any("Guard<" in l for l in f.locals):
            if visit:
                for i, t in f.calls():
                    o, _ = self.acquisitions(f, t)
                    visit(t, frozenset(), o)
            return frozenset()
        ins = {0: {}}
        work = [0]
        out_ret = set()
        seen_out = {}
        order = 0
        while work:
            b = work.pop()
            st = {k: set(v) for k, v in ins[b].items()}
            blk = f.blocks[b]
            for s in blk["s"]:
                self.stmt(f, st, s)
            t = blk["t"]
            if t["k"] == "drop":
                pl = t.get("p") or t.get("d")
                if pl and len(pl) == 1:
                    st.pop(pl[0], None)
            elif t["k"] == "call":
                self.callstep(f, st, t)
            elif t["k"] == "return":
                out_ret |= st.get(0, set())
            for s in f.succ(b):
                if f.blocks[s] is None:
                    continue
                cur = ins.get(s)
                if cur is None:
                    ins[s] = {k: set(v) for k, v in st.items()}
                    work.append(s)
                else:
                    ch = False
                    for k, v in st.items():
                        if not v <= cur.get(k, set()):
                            cur[k] = cur.get(k, set()) | v
                            ch = True
                    if ch:
                        work.append(s)
        if visit:
            for b in sorted(ins):
                blk = f.blocks[b]
                t = blk["t"]
                if t["k"] != "call":
                    continue
                st = {k: set(v) for k, v in ins[b].items()}
                for s in blk["s"]:
                    self.stmt(f, st, s)
                held = frozenset(x for v in st.values() for x in v)
                o, _ = self.acquisitions(f, t)
                visit(t, held, o)
        return frozenset(out_ret)

    def stmt(self, f, st, s):
        if s[0] == "dead":
            st.pop(s[1], None)
            return
        if s[0] != "=":
            return
        dst = s[1][0]
        moved = set()
        for o in operands(s[2]):
            if o[0] == "M" and o[1][0] in st and not f.locals[o[1][0]].startswith("&"):
                moved |= st[o[1][0]]
                if len(o[1]) == 1:
                    st.pop(o[1][0], None)
                else:
                    # moving the guard out of a wrapper
                    st.pop(o[1][0], None)
        if moved:
            if len(s[1]) == 1:
                st[dst] = moved
            else:
                st[dst] = st.get(dst, set()) | moved
        elif len(s[1]) == 1 and dst in st:
            st.pop(dst, None)

    def callstep(self, f, st, t):
        moved = set()
        for a in t["a"]:
            if a[0] == "M" and a[1][0] in st:
                moved |= st.pop(a[1][0])
        _, ret = self.acquisitions(f, t)
        d = t["d"][0]
        if guard_ty(t["dt"]) or guard_ty(f.locals[d]):
            new = set((lk, md) for lk, md in ret) | moved
            if new:
                st[d] = (st.get(d, set()) if len(t["d"]) > 1 else set()) | new
        elif len(t["d"]) == 1:
            st.pop(d, None)
