"""What a local container holds when control reaches a point: the list of segments
(symbolic number of entries, stored expressions) appended or assigned to it."""
from .effects import loop_info, poly, term, writes
from .flow import ELEM, is_ptrlike, is_scalar, is_cont
from .ir import const, expr_str, short, strip_casts, walk


def has(t, x):
    if t == x:
        return True
    return isinstance(t, tuple) and any(has(y, x) for y in t)


def subst(t, f):
    r = f(t)
    if r is not None:
        return r
    return tuple(subst(x, f) for x in t) if isinstance(t, tuple) else t


class Seg:
    """count: polynomial; values: [(expression, node, loops)]"""

    def __init__(self, count, values, loops=()):
        self.count, self.values, self.loops = count, values, loops


class Seqs:
    READERS = ("byref:DBPut", "byref:DBAdd")    # take pointers to non-const but only read

    def __init__(self, fl):
        self.fl = fl
        self.dom = fl.cfg.dominators()
        self.ev = {}
        for n in fl.cfg.livenodes():
            for w in writes(fl, n):
                for p in w.places:
                    if p[0][0] == "L":
                        self.ev.setdefault(p[0][1], []).append((n, w, len(w.places) == 1))
        self._memo = {}
        self.partial = {}     # (container, node): (push not executed on every iteration, entries if it were)

    def dominates(self, a, b):
        return a.i == b.i or bool(self.dom[b.i] >> a.i & 1)

    def each(self, n, L):
        """executed on every iteration"""
        if L.head is None:
            return False
        back = [p for p, _ in L.head.pred if p.i in L.ids]
        return bool(back) and all(self.dominates(n, b) for b in back)

    def loops(self, n):
        return [loop_info(self.fl, s) for s in n.loops]

    # ---- terms with the current row of a loop made explicit
    def rn(self, t, Ls):
        for k, L in enumerate(Ls):
            if L.var is None:
                continue
            C = self.rn(L.container, Ls[:k]) if L.container is not None else None
            B = self.rn(L.bound, Ls[:k]) if L.bound is not None else None
            X = C
            if X is None and L.bound is not None and L.start == ("k", 0):
                X = ("n", B)

            def f(u, L=L, X=X, C=C, B=B):
                if not isinstance(u, tuple) or len(u) < 2:
                    return None
                if L.s["k"] == "forrange":
                    return ("row", C) if u[0] == "v" and u[1] == L.var and C else None
                isv = lambda y: isinstance(y, tuple) and y[:1] == ("v",) and y[1] == L.var
                if u[0] == "x" and isv(u[2]) and (C == u[1] or B is not None and self.samesize(L, B, u[1])):
                    return ("row", u[1])
                if u[0] == "u" and u[1] == "*" and isv(u[2]):
                    return ("row", X)
                if u[0] == "m" and u[1][:1] == ("o",) and u[1][1] == "->" and isv(u[1][2]):
                    return ("m", ("row", X), u[2])
                return None
            t = subst(t, f)
        return t

    def samesize(self, L, B, c):
        return L.start == ("k", 0) and poly(B) == poly(("M", "size", c))

    def count(self, L):
        """iterations of a loop, as a term"""
        if not L.full:
            if L.why == "does not start at 0" and not L.breaks and L.container is not None and L.start and L.start[0] == "k" and L.start[1] > 0:
                return ("b", "-", ("M", "size", L.container), L.start)
            return None
        if L.container is not None:
            return ("M", "size", L.container)
        if L.bound is not None and L.start is not None and L.step == 1 and getattr(L, "op", "") in ("<", "!=", "not_eq"):
            return L.bound if L.start == ("k", 0) else ("b", "-", L.bound, L.start)
        return None

    def pathcount(self, ids, L):
        """(fewest, most) of the nodes `ids` passed by one iteration of loop L, without repeating inner loops"""
        if L.head is None:
            return None
        lo, hi = {}, {}
        order, seen = [], set()

        def visit(x):
            stack = [(x, iter([s for s, _ in x.succ if s.i in L.ids and s.i != L.head.i]))]
            seen.add(x.i)
            while stack:
                y, it = stack[-1]
                for s in it:
                    if s.i not in seen:
                        seen.add(s.i)
                        stack.append((s, iter([t for t, _ in s.succ if t.i in L.ids and t.i != L.head.i])))
                        break
                else:
                    order.append(y)
                    stack.pop()
        visit(L.head)
        pos = {x.i: -k for k, x in enumerate(order)}
        lo[L.head.i] = hi[L.head.i] = 0
        ends = []
        for x in reversed(order):
            ps = [p.i for p, _ in x.pred if p.i in lo and x.i != L.head.i and pos.get(p.i, 1) < pos[x.i]]
            if x.i != L.head.i:
                if not ps:
                    continue
                a = 1 if x.i in ids else 0
                lo[x.i], hi[x.i] = min(lo[p] for p in ps) + a, max(hi[p] for p in ps) + a
            if any(s.i == L.head.i for s, _ in x.succ) and x.i != L.head.i:
                ends.append(x.i)
        return (min(lo[i] for i in ends), max(hi[i] for i in ends)) if ends else None

    def mult(self, n, Ls, inner=("k", 1), last=False):
        """number of executions of n within the loops Ls, times inner (a term), as a polynomial"""
        for k, L in enumerate(Ls[:-1] if last else Ls):
            if not self.each(Ls[k + 1].head if k + 1 < len(Ls) else n, L):
                return None
        tot = dict(poly(self.rn(inner, Ls)))
        for k in range(len(Ls) - 1, -1, -1):
            L = Ls[k]
            c = self.count(L)
            if c is None:
                return None
            C = self.rn(L.container, Ls[:k]) if L.container is not None else None
            rows = [("row", C)] if C is not None else []
            rows += [r for m in tot for a in m for r in rowsin(a) if C is None or r == ("row", C)]
            out = {}
            for m, co in tot.items():
                dep = [a for a in m if any(has(a, r) for r in rows)]
                if any(self.varies(a, L) for a in m):
                    return None
                if dep:
                    free = tuple(a for a in m if a not in dep)
                    r0 = [r for r in rows if has(dep[0], r)][0]
                    key = tuple(sorted(free + (("S", r0[1], tuple(dep)),), key=repr))
                    out[key] = out.get(key, 0) + co
                else:
                    for m2, c2 in poly(self.rn(c, Ls[:k])).items():
                        key = tuple(sorted(m + m2, key=repr))
                        out[key] = out.get(key, 0) + co * c2
            tot = out
        return {m: c for m, c in tot.items() if c}

    def varies(self, t, L):
        """mentions the variable of the loop, or a local computed in it"""
        if not isinstance(t, tuple):
            return False
        if t[:1] == ("v",) and len(t) == 3:
            return t[1] == L.var or isinstance(t[2], tuple) and any(i in L.ids for i in t[2])
        return any(self.varies(x, L) for x in t)

    def rel(self, n, at, d):
        """loops around n that are not around `at`, or None if the container lives across iterations"""
        common = [s for s in n.loops if any(s is x for x in at.loops)]
        decl = [m for m in self.fl.cfg.livenodes() if m.kind == "var" and m.e.get("d") == d]
        for s in common:
            if not decl or not any(s is x for x in decl[0].loops):
                return None
        return [loop_info(self.fl, s) for s in n.loops if not any(s is x for x in at.loops)]

    def segs(self, d, at, content=True):
        """segments of local container d at node `at`; None when undecided.
        content=False: the number of entries only"""
        key = (d, at.i, content)
        if key in self._memo:
            return self._memo[key]
        self._memo[key] = None
        r = self._segs(d, at, content)
        self._memo[key] = r
        return r

    def total(self, d, at):
        s = self.segs(d, at, False)
        if s is None:
            return None
        t = {}
        for x in s:
            for m, c in x.count.items():
                t[m] = t.get(m, 0) + c
        return {m: c for m, c in t.items() if c}

    elem = None

    def lens(self, e, n, depth=0):
        """polynomial of a count expression, local container sizes expanded"""
        t = term(self.fl, e, n)
        p = {}
        for m, c in poly(t).items():
            q = {(): c}
            for a in m:
                r = None
                if a[0] == "M" and a[1] == "size" and a[2][0] == "v":
                    r = self.total(a[2][1], n)
                elif a[0] == "x" and a[1][0] == "v" and a[2][0] == "k" and self.elem and depth < 4:
                    # constant element of a local array: what was last stored there
                    v = self.elem(a[1][1], a[2][1], n)
                    if v and len(v) == 1 and v[0]:
                        r = self.lens(v[0][0], v[0][1], depth + 1)
                if r is None:
                    r = {(a,): 1}
                q2 = {}
                for m1, c1 in q.items():
                    for m2, c2 in r.items():
                        k = tuple(sorted(m1 + m2, key=repr))
                        q2[k] = q2.get(k, 0) + c1 * c2
                q = q2
            for k, v in q.items():
                p[k] = p.get(k, 0) + v
        return {m: c for m, c in p.items() if c}

    def _segs(self, d, at, content):
        fl = self.fl
        decl = [m for m in fl.cfg.livenodes() if m.kind == "var" and m.e.get("d") == d]
        if len(decl) != 1:
            return None
        v = decl[0]
        segs = []
        init = v.e.get("init")
        if isinstance(init, dict):
            x = strip_casts(init)
            while x["k"] == "ctor" and len(x.get("c") or []) == 1 and strip_casts(x["c"][0])["k"] == "ctor":
                x = strip_casts(x["c"][0])
            a = [y for y in x.get("c") or [] if y["k"] != "x"]
            if x["k"] in ("ctor", "init") and a:
                if is_scalar(a[0].get("t")) and not is_ptrlike(a[0].get("t")):
                    segs.append(Seg(self.lens(a[0], v), [(a[1], v, [])] if len(a) > 1 else []))
                    segs[-1].sized = True
                else:
                    return None
        evs = []
        for n, w, sole in self.ev.get(d, ()):
            ps = [p for p in w.places if p[0] == ("L", d)]
            if n.i == v.i or not any(len(p) in (1, 2) for p in ps):
                continue
            if not self.before(n, at) or w.kind.startswith(self.READERS):
                continue
            if not content and len(ps[0]) == 2 and "inserter" not in expr_str(w.target):
                continue
            if not sole:
                return None
            evs.append((n, w, len(ps[0])))
        # order: a before b when a's outermost own loop (or a itself) comes first
        def top(n):
            Ls = self.rel(n, at, d)
            return None if Ls is None else (Ls[0].head if Ls else n)
        tops = []
        for n, w, k in evs:
            t = top(n)
            if t is None or t.i != n.i and not self.dominates(t, at) or t.i == n.i and not self.dominates(n, at):
                return None
            tops.append(t)
        order = sorted(range(len(evs)), key=lambda i: (bin(self.dom[tops[i].i]).count("1"), bin(self.dom[evs[i][0].i]).count("1")))
        done = set()
        for i in order:
            n, w, k = evs[i]
            Ls = self.rel(n, at, d)
            kind = w.kind
            c = w.e.get("c") or []
            if k == 2:
                if kind == "algo:copy" and len(c) == 3 and "inserter" in expr_str(c[2]):
                    pass
                elif kind != "asgn":
                    return None
                else:
                    continue
            if kind in ("mut:reserve", "mut:shrink_to_fit"):
                continue
            if kind == "mut:clear" and not Ls:
                segs = []
                continue
            if kind in ("mut:resize", "mut:assign") and not Ls and not is_ptrlike(c[1].get("t")):
                p = self.lens(c[1], n)
                if kind == "mut:resize" and segs:
                    return None
                segs = [Seg(p, [(c[2], n, [])] if len(c) > 2 else [])]
                segs[-1].sized = True
                continue
            if kind in ("mut:push_back", "mut:emplace_back"):
                m = self.mult(n, Ls)
                if m is None and Ls:
                    # one of several alternatives of the same iteration?
                    grp = [y for y in evs if y[1].kind in ("mut:push_back", "mut:emplace_back") and [id(s) for s in y[0].loops] == [id(s) for s in n.loops]]
                    r = self.pathcount({y[0].i for y in grp}, Ls[-1])
                    full = self.mult(n, Ls, last=True)
                    if r is None or full is None or r[0] == r[1] and r[0] != 1:
                        return None
                    if r != (1, 1):
                        self.partial[(d, at.i)] = (n, full)
                        return None
                    if any(y[0].i in done for y in grp):
                        continue
                    done.add(n.i)
                    self.add(segs, Seg(full, [(y[1].rhs if y[1].rhs is not None else y[1].e["c"][-1], y[0], Ls) for y in grp], tuple(id(L.s) for L in Ls)))
                    segs[-1].alternatives = True
                    continue
                if m is None:
                    return None
                self.add(segs, Seg(m, [(w.rhs if w.rhs is not None else c[-1], n, Ls)], tuple(id(L.s) for L in Ls)))
                continue
            rng = None
            if kind == "mut:insert" and len(c) == 4 and is_ptrlike(c[2].get("t")):
                rng = (c[2], c[3], c[1])
            elif kind == "algo:copy" and len(c) == 3 and "inserter" in expr_str(c[2]):
                rng = (c[0], c[1], None)
            elif kind == "mut:assign" and len(c) == 3 and not Ls:
                rng = (c[1], c[2], None)
                segs = []
            if rng:
                a, b = term(fl, rng[0], n), term(fl, rng[1], n)
                off = 0
                if a[:2] in (("b", "+"), ("o", "+")) and a[3][0] == "k":
                    off, a = off + a[3][1], a[2]
                if b[:2] in (("b", "-"), ("o", "-")) and b[3][0] == "k":
                    off, b = off + b[3][1], b[2]
                if not (a[0] == "M" and b[0] == "M" and a[1] in ("begin", "cbegin") and b[1] in ("end", "cend") and a[2] == b[2]):
                    return None
                if rng[2] is not None and not (term(fl, rng[2], n)[:2] in (("M", "end"), ("M", "cend"))):
                    return None
                src = a[2]
                inner = ("M", "size", src) if not off else ("b", "-", ("M", "size", src), ("k", off))
                if src[0] == "v":
                    t = self.total(src[1], n)
                    if t is None:
                        return None
                m = self.mult(n, Ls, inner)
                if m is None:
                    return None
                s = Seg(m, [(("part" if off else "all", src), n, Ls)], tuple(id(L.s) for L in Ls))
                self.add(segs, s)
                continue
            return None
        # element assignments into sized segments
        el = [(n, w) for n, w, k in evs if k == 2 and w.kind == "asgn"]
        if el:
            if not segs or not getattr(segs[0], "sized", False):
                return None
            parts = []
            for n, w in el:
                tgt = strip_casts(w.target)
                if tgt["k"] not in ("idx", "opcall") or len(tgt.get("c") or []) != 2:
                    return None
                Ls = self.rel(n, at, d)
                ix = dict(poly(term(fl, tgt["c"][1], n)))
                if not Ls:
                    parts.append((ix, {(): 1}, (w.rhs, n, Ls)))
                    continue
                L = Ls[-1]
                if len(Ls) != 1 or not self.each(n, L) or self.count(L) is None or L.start != ("k", 0):
                    return None
                lv = [m for m in ix if any(a[:1] == ("v",) and a[1] == L.var for a in m)]
                if len(lv) != 1 or len(lv[0]) != 1:
                    return None
                st = ix.pop(lv[0])
                parts.append((ix, self.mult(n, Ls), (w.rhs, n, Ls), st))
            segs = self.split(segs, parts)
        return segs

    def split(self, segs, parts):
        """replace the sized first segment by the ranges assigned one after the other"""
        full = segs[0].count
        strided = [p for p in parts if len(p) == 4 and p[3] != 1]
        if strided:
            # interleaved: v[k*i + j], j = 0..k-1
            k = strided[0][3]
            if len(strided) != len(parts) or any(p[3] != k or p[1] != strided[0][1] for p in parts):
                return None
            js = sorted((p[0].get((), 0), p) for p in parts if set(p[0]) <= {()})
            if len(js) != len(parts):
                return None
            s = Seg(full, [p[2] for _, p in js])
            s.filled = [j for j, _ in js] == list(range(int(k))) and {m: c * k for m, c in strided[0][1].items()} == full
            s.sized = True
            return [s] + segs[1:]
        pos, out, left = {}, [], list(parts)
        while left:
            nx = [p for p in left if p[0] == pos]
            if len(nx) != 1:
                break
            left.remove(nx[0])
            out.append(Seg(nx[0][1], [nx[0][2]]))
            for m, c in nx[0][1].items():
                pos[m] = pos.get(m, 0) + c
            pos = {m: c for m, c in pos.items() if c}
        if left:
            return None
        if pos != full:
            out[-1].short = True
            rest = dict(full)
            for m, c in pos.items():
                rest[m] = rest.get(m, 0) - c
            s = Seg({m: c for m, c in rest.items() if c}, list(segs[0].values))
            s.sized = True
            out.append(s)
        return out + segs[1:]

    def add(self, segs, s):
        """pushes of the same loop nest interleave: one segment"""
        if segs and segs[-1].loops and segs[-1].loops == s.loops and not getattr(segs[-1], "sized", False):
            p = segs[-1]
            for m, c in s.count.items():
                p.count[m] = p.count.get(m, 0) + c
            p.values += s.values
        else:
            segs.append(s)

    def before(self, n, at):
        key = ("bef", at.i)
        if key not in self._memo:
            seen, todo = set(), [p for p, _ in at.pred]
            while todo:
                x = todo.pop()
                if x.i in seen:
                    continue
                seen.add(x.i)
                todo += [p for p, _ in x.pred]
            self._memo[key] = seen
        return n.i in self._memo[key]


def rowsin(t):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == "row":
            yield t
        else:
            for x in t:
                yield from rowsin(x)
