"""Sign analysis of one's-complement references.

A reference list (cells of a tessellation, faceCells, cellEdges, ...) stores an
index k as k (forward) or ~k (reversed).  A forward abstract interpretation over
the inlined CFG tracks for every integer value whether it is such an encoded
reference, a decoded index, or a freshly encoded one, together with the sign tests
that hold on the path (including tests kept in a bool)."""
from .effects import loop_info, writes, overlap
from .flow import ELEM, Flow, bare, deref_local, is_iter, is_ptrlike, is_ref
from .ir import const, expr_str, kids, short, strip_casts, walk
import re

DECL = {("cells", 2), ("faceCells", 2), ("cellEdges", 2), ("cell_faces", 1), ("face_cells", 1)}
NAMES = {n for n, _ in DECL}
UNS = re.compile(r"unsigned|size_t|size_type|uint")
INTT = re.compile(r"^(const )?(unsigned|int|long|short|size_t|signed|unsigned int|unsigned long|long long|unsigned short)( const)?( ?&)?$")
PLAIN = frozenset([("idx", None, None)])
ENC = ("raw", "rawneg", "neg", "bad")


def isint(t):
    t = (t or "").replace("std::", "").strip()
    return bool(INTT.match(t)) or t.endswith(("size_type", "value_type"))


class State:
    __slots__ = ("facts", "vals")

    def __init__(self, facts=None, vals=None):
        self.facts, self.vals = facts or {}, vals or {}

    def copy(self):
        return State(dict(self.facts), dict(self.vals))

    def join(self, o):
        f = {k: v for k, v in self.facts.items() if o.facts.get(k) == v}
        v = dict(self.vals)
        for k, b in o.vals.items():
            a = v.get(k, PLAIN)
            v[k] = a if a == b else a | b
        for k in self.vals:
            if k not in o.vals:
                v[k] = v[k] | PLAIN
        return State(f, v)

    def put(self, d, v):
        if v == PLAIN:
            self.vals.pop(d, None)
        else:
            self.vals[d] = v

    def same(self, o):
        return self.facts == o.facts and self.vals == o.vals


class Signs:
    def __init__(self, prog, inl):
        self.prog, self.inl = prog, inl
        self.fl = Flow(inl)
        self.cfg = self.fl.cfg
        self.signed = {}       # element place -> {(storing node, subscript local)}
        self.dest = set()      # local lists that end up in a list of references
        self._reach, self._fresh = {}, {}
        self.keydeps = {}
        self._w = {}
        for _ in range(4):
            before = sum(map(len, self.signed.values())) + len(self.dest)
            self.solve()
            self.discover()
            if sum(map(len, self.signed.values())) + len(self.dest) == before:
                break

    def ws(self, n):
        if n.i not in self._w:
            self._w[n.i] = writes(self.fl, n)
        return self._w[n.i]

    # ---------------------------------------------------------------- lists
    def add(self, p, n, sub=None):
        if not self.declared(p):
            self.signed.setdefault(p, set()).add((n.i, sub))

    def after(self, i, n, cut):
        """n can be reached from node i (not through the node `cut`)"""
        k = (i, cut)
        if k not in self._reach:
            cut = set(cut)
            seen, st = set(), [x for x, _ in self.cfg.nodes[i].succ]
            while st:
                x = st.pop()
                if x.i in seen or x.i in cut:
                    continue
                seen.add(x.i)
                st.extend(y for y, _ in x.succ)
            self._reach[k] = seen
        return n.i in self._reach[k]

    def fresh(self, p):
        """nodes at which the list p belongs to starts empty (declaration, clear)"""
        if p not in self._fresh:
            out = set()
            for m in self.cfg.livenodes():
                if m.kind == "var" and p[0] == ("L", m.e.get("d")):
                    out.add(m.i)
                for w in self.ws(m):
                    if w.kind == "mut:clear" and set(w.places) == {p[:-1]}:
                        out.add(m.i)
            self._fresh[p] = out
        return self._fresh[p]

    def encoded(self, p, n, sub):
        for i, s in self.signed[p]:
            cut = None
            if s is not None and s == sub:
                for L in self.cfg.nodes[i].loops:
                    if any(L is x for x in n.loops):
                        lp = loop_info(self.fl, L)
                        if lp is not None and lp.var == s and lp.head is not None:
                            cut = getattr(lp.head, "i", lp.head)
            if self.after(i, n, tuple(sorted(self.fresh(p) | ({cut} if cut is not None else set())))):
                return True
        return False

    def is_signed(self, p, n=None, sub=None):
        """element place p belongs to a list of encoded references"""
        if p in self.signed and (n is None or self.encoded(p, n, sub)):
            return True
        for name, depth in DECL:
            if len(p) > depth and p[-depth - 1] == name and all(s == ELEM for s in p[-depth:]):
                return True
        return False

    def signed_below(self, p):
        """suffixes s such that p+s is an element place of encoded references"""
        out = set()
        for name, depth in DECL:
            for k in range(depth + 1):
                if len(p) > k and p[-1 - k] == name and all(s == ELEM for s in p[len(p) - k:]):
                    out.add((ELEM,) * (depth - k))
        for s in self.signed:
            if s[:len(p)] == p:
                out.add(s[len(p):])
        return out

    def declared(self, p):
        return any(x in NAMES for x in p[1:] if isinstance(x, str))

    # ----------------------------------------------------------------- keys
    def key(self, e, n):
        """canonical text of a pure lvalue expression, its locals and places"""
        e = strip_casts(e)
        k, c = e["k"], e.get("c") or []
        if k == "ref":
            if e.get("dk") in ("local", "param"):
                return "#%d" % e["d"], {e["d"]}
            return e.get("n", "?"), set()
        if k == "this":
            return "this", set()
        v = const(e)
        if v is not None:
            return str(v), set()
        if k == "mem":
            b, d = self.key(c[0], n)
            return (b and b + "." + e["n"]), d
        if k in ("idx",) or (k == "opcall" and e["o"] == "[]"):
            a, d1 = self.key(c[0], n)
            b, d2 = self.key(c[1], n)
            return (a and b and "%s[%s]" % (a, b)), d1 | d2
        if (k == "un" and e["o"] == "*") or (k == "opcall" and e["o"] in ("*", "->")):
            a, d = self.key(c[0], n)
            return (a and "*" + a), d
        if k == "bin":
            a, d1 = self.key(c[0], n)
            b, d2 = self.key(c[1], n)
            return (a and b and "(%s%s%s)" % (a, e["o"], b)), d1 | d2
        if k == "mcall" and (e.get("mn") or "") in ("front", "back", "at", "begin", "size") or (k == "mcall" and e.get("conv")):
            ks = [self.key(x, n) for x in c]
            if all(x[0] for x in ks):
                return "%s.%s(%s)" % (ks[0][0], e.get("mn"), ",".join(x[0] for x in ks[1:])), set().union(*[x[1] for x in ks])
        return None, set()

    def source(self, e, n):
        """('raw', key) when expression e reads an encoded reference"""
        k = e["k"]
        if k not in ("idx", "opcall", "mcall", "un", "ref", "mem"):
            return None
        if not isint(e.get("t")):
            return None
        ps = self.fl.lv(e, n)
        c = e.get("c") or []
        sub = deref_local(c[1]) if k in ("idx", "opcall") and len(c) == 2 else None
        if not ps or not any(self.is_signed(p, n, sub) for p in ps):
            return None
        ks, deps = self.key(e, n)
        if ks is None:
            ks, deps = "@%d" % id(e), set()
        if ks not in self.keydeps:
            self.keydeps[ks] = (set(deps), set(ps))
        else:
            self.keydeps[ks][0].update(deps)
            self.keydeps[ks][1].update(ps)
        return ks

    # ---------------------------------------------------------------- values
    def narrow(self, toks, st):
        out = set()
        for t in toks:
            pol, src, ctx = t
            f = st.facts.get(src) if src is not None else None
            if f:
                if pol == "raw":
                    out.add(("idx", src, "+") if f == "+" else ("rawneg", src, "-"))
                    continue
                if pol == "rawneg" and f == "+":
                    continue
                if pol in ("idx", "neg") and ctx and ctx != f:
                    continue
                if pol in ("idx", "neg") and ctx is None:
                    out.add((pol, src, f))
                    continue
            out.add(t)
        return frozenset(out)

    def eval(self, e, n, st):
        if e is None:
            return PLAIN
        return self.narrow(self._eval(e, n, st), st)

    def _eval(self, e, n, st):
        k, c = e["k"], e.get("c") or []
        if k == "cast":
            r = self.eval(c[0], n, st)
            return r
        if k == "inl":
            out = set()
            for rn, re_ in self.fl.rets(e):
                s2 = self.IN.get(rn.i)
                if s2 is not None:
                    out |= self.eval(re_, rn, s2)
            return frozenset(out) or PLAIN
        if k == "ref" and e.get("dk") in ("local", "param"):
            d = e["d"]
            if d in st.vals:
                return st.vals[d]
            if is_ref(self.fl.tname(d)):
                s = self.source(e, n)
                if s:
                    return frozenset([("raw", s, None)])
            return PLAIN
        if k in ("bin", "opcall") and e.get("o") in ("<", ">", "<=", ">=") and len(c) == 2:
            t = self.test(e, n, st)
            if t:
                return frozenset([("test", t[0], t[1])])
            return PLAIN
        if k == "un":
            o = e["o"]
            v = self.eval(c[0], n, st)
            if o == "~":
                return frozenset(self.compl(t, e) for t in v)
            if o in ("!", "not"):
                return frozenset(("test", t[1], "-" if t[2] == "+" else "+") if t[0] == "test" else ("idx", None, None) for t in v)
            if o in ("+",):
                return v
            if o in ("++", "--") or o == "-":
                return frozenset(t for t in v if t[0] in ENC) | PLAIN
            if o == "*":
                pass
            else:
                return PLAIN
        s = self.source(e, n)
        if s:
            return frozenset([("raw", s, None)])
        if k == "cond":
            cs, a, b = c
            out = set()
            for arm, outcome in ((a, True), (b, False)):
                s2 = self.refine(cs, outcome, n, st.copy())
                if s2 is not None:
                    out |= self.eval(arm, n, s2)
            return frozenset(out)
        if k == "bin" and e["o"] in ("+", "-", "*", "/", "%"):
            out = set()
            for x in c:
                out |= {t for t in self.eval(x, n, st) if t[0] in ENC}
            return frozenset(out) or PLAIN
        if k in ("idx",) or (k == "opcall" and e["o"] == "[]") or (k == "mcall" and e.get("mn") == "at"):
            if isint(e.get("t")) and len(c) == 2:
                iv = self.eval(c[1], n, st)
                return frozenset(t for t in iv if t[0] == "idx") or PLAIN
            return PLAIN
        if k == "call" and short(e.get("n", "")) == "max" and len(c) == 2:
            vs = [self.eval(x, n, st) for x in c]
            ks = [self.key(x, n)[0] if strip_casts(x)["k"] != "un" else "~" + str(self.key(strip_casts(x)["c"][0], n)[0]) for x in c]
            if ks[0] and ks[1] and ("~" + ks[0] == ks[1] or "~" + ks[1] == ks[0]):
                return PLAIN
            return frozenset(t for v in vs for t in v if t[0] in ENC) or PLAIN
        if k == "call" and short(e.get("n", "")) in ("abs", "labs") and c:
            return frozenset(("bad", t[1], None) if t[0] in ENC else t for t in self.eval(c[0], n, st))
        if k == "init" and len(c) == 1:
            return self.eval(c[0], n, st)
        if k == "ctor" and len(c) == 1 and isint(e.get("t")):
            return self.eval(c[0], n, st)
        if k == "asgn" and e["o"] == "=":
            return self.eval(c[1], n, st)
        return PLAIN

    def compl(self, t, e):
        pol, src, ctx = t
        if pol == "rawneg":
            return ("idx", src, "-")
        if pol == "raw":
            return ("bad", src, None)
        if pol == "idx":
            return ("neg", src, ctx)
        if pol == "neg":
            return ("idx", src, ctx)
        return t

    def test(self, e, n, st):
        """(src, sign when true) of a comparison with zero"""
        a, b = e["c"]
        o = e["o"]
        va, vb = const(strip_casts(a)), const(strip_casts(b))
        if va is not None and vb is None:
            a, va, vb = b, None, va
            o = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[o]
        if vb is None:
            return None
        sign = {("<", 0): "-", (">=", 0): "+", ("<=", -1): "-", (">", -1): "+"}.get((o, vb))
        if sign is None:
            return None
        if UNS.search((strip_casts(a).get("t") or "")):
            return None
        src = {t[1] for t in self._eval(strip_casts(a), n, st) if t[0] in ("raw", "rawneg") or (t[0] in ("idx",) and t[2] and t[1])}
        src.discard(None)
        if len(src) == 1:
            return src.pop(), sign
        return None

    def refine(self, e, outcome, n, st):
        """state in which e evaluates to outcome (None: impossible)"""
        e0 = strip_casts(e)
        k, c = e0["k"], e0.get("c") or []
        if k == "un" and e0["o"] in ("!", "not"):
            return self.refine(c[0], not outcome, n, st)
        if k == "bin" and e0["o"] in ("&&", "and", "||", "or"):
            conj = e0["o"] in ("&&", "and")
            if conj == outcome:
                st = self.refine(c[0], outcome, n, st)
                return None if st is None else self.refine(c[1], outcome, n, st)
            return st
        for t in self.eval(e0, n, st):
            if t[0] != "test":
                return st
        ts = [t for t in self.eval(e0, n, st)]
        if len(ts) == 1 and ts[0][1] is not None:
            _, src, sg = ts[0]
            f = sg if outcome else ("-" if sg == "+" else "+")
            old = st.facts.get(src)
            if old and old != f:
                return None
            st.facts[src] = f
        return st

    # ------------------------------------------------------------- transfer
    def rename(self, st, keys, n):
        """the expressions `keys` no longer denote the values read through them"""
        for k in keys:
            nk = "%s'%d" % (k.split("'")[0], n.i)
            used = k in st.facts or any(t[1] == k for v in st.vals.values() for t in v)
            if not used:
                continue
            # values of an earlier round under the same name lose their identity
            for d, v in list(st.vals.items()):
                if any(t[1] in (k, nk) for t in v):
                    st.vals[d] = frozenset((t[0], nk if t[1] == k else None if t[1] == nk else t[1], t[2]) for t in v)
            st.facts.pop(nk, None)
            if k in st.facts:
                st.facts[nk] = st.facts.pop(k)

    def transfer(self, n, st):
        st = st.copy()
        e = n.e
        if e is None:
            return st
        if n.kind == "var" and "d" in e:
            d = e["d"]
            self.rename(st, [k for k, (ds, _) in self.keydeps.items() if d in ds and "'" not in k], n)
            if e.get("rangeof"):
                ps = self.fl.lv(e["rangeof"], n)
                if isint(e.get("t")) and any(self.is_signed(p + (ELEM,), n) for p in ps):
                    key = "R%d" % d
                    self.rename(st, [key], n)
                    st.vals[d] = frozenset([("raw", key, None)])
                else:
                    st.vals.pop(d, None)
            elif isinstance(e.get("init"), dict):
                if isint(e.get("t")) or "bool" in (e.get("t") or ""):
                    st.put(d, self.conv(self.eval(e["init"], n, st), e.get("t")))
            else:
                st.vals.pop(d, None)
            return st
        if n.kind == "nop" or e.get("k") == "rangecond":
            return st
        # assignments to locals, in evaluation order
        new = {}
        for w in self.ws(n):
            d = None
            if w.kind == "asgn":
                d = deref_local(w.target)
                if d is not None and not is_ref(self.fl.tname(d)) and (isint(self.fl.tname(d)) or self.fl.tname(d) == "bool"):
                    new[d] = self.conv(self.eval(w.rhs, n, st), self.fl.tname(d))
        killed = set()
        for w in self.ws(n):
            if w.kind == "mut:push_back":
                continue
            ld = deref_local(w.target) if w.target is not None else None
            for k, (ds, ps) in self.keydeps.items():
                if ld is not None and ld in ds and w.kind in ("asgn", "upd") or w.kind.startswith("byref") and ld is not None and ld in ds and not any(len(p) > 1 for p in w.places):
                    killed.add(k)
                elif ld is None and w.kind != "delete" and overlap(w.places, ps):
                    killed.add(k)
            if ld is not None and w.kind == "upd" and ld in st.vals:
                new.setdefault(ld, frozenset(t for t in st.vals[ld] if t[0] in ENC) | PLAIN)
        for d, v in new.items():
            st.put(d, v)
        self.rename(st, sorted(killed), n)
        return st

    def conv(self, toks, t):
        if t == "bool" or (t or "").endswith("bool"):
            return toks
        if UNS.search(t or ""):
            return frozenset(("bad", x[1], x[2]) if x[0] in ("raw", "rawneg") else x for x in toks)
        return toks

    def solve(self):
        self.IN = {self.cfg.entry.i: State()}
        order = {n: i for i, n in enumerate(self.cfg.rpo())}
        import heapq
        work = [(order[self.cfg.entry.i], self.cfg.entry.i)]
        inq = {self.cfg.entry.i}
        rounds = {}
        while work:
            _, i = heapq.heappop(work)
            inq.discard(i)
            rounds[i] = rounds.get(i, 0) + 1
            if rounds[i] > 40:
                continue
            n = self.cfg.nodes[i]
            out = self.transfer(n, self.IN[i])
            for s, lab in n.succ:
                o = out
                if n.kind == "cond" and lab in (True, False) and n.e.get("k") != "rangecond":
                    o = self.refine(n.e, lab, n, out.copy())
                    if o is None:
                        continue
                if o.facts:
                    o = State(o.facts, {d: self.narrow(v, o) for d, v in o.vals.items()})
                if s.i not in self.IN:
                    self.IN[s.i] = o.copy()
                else:
                    j = self.IN[s.i].join(o)
                    if j.same(self.IN[s.i]):
                        continue
                    self.IN[s.i] = j
                if s.i not in inq and s.i in order:
                    inq.add(s.i)
                    heapq.heappush(work, (order[s.i], s.i))

    # ------------------------------------------------- local encoded lists
    def discover(self):
        fl = self.fl
        for n in self.cfg.livenodes():
            if n.i not in self.IN:
                continue
            st = self.IN[n.i]
            for w in self.ws(n):
                if w.kind in ("asgn", "mut:push_back", "mut:emplace_back", "mut:insert", "mut:assign") and w.rhs is not None:
                    if isint(w.rhs.get("t")):
                        if any(t[0] in ("raw", "rawneg", "neg") for t in self.eval(w.rhs, n, st)):
                            for p in w.places:
                                q = p if w.kind == "asgn" else p + (ELEM,)
                                if len(q) > 1 and q[-1] == ELEM:
                                    sub = None
                                    if w.kind == "asgn":
                                        tg = strip_casts(w.target)
                                        if tg["k"] in ("idx", "opcall") and len(tg["c"]) == 2:
                                            sub = deref_local(tg["c"][1])
                                    self.add(q, n, sub)
                    elif w.kind in ("asgn", "mut:push_back"):
                        for q in fl.lv(w.rhs, n):
                            for suf in self.signed_below(q):
                                for p in w.places:
                                    if suf and p != q:
                                        self.add(p + (() if w.kind == "asgn" else (ELEM,)) + suf, n)
                        for p in w.places:
                            p = p + (() if w.kind == "asgn" else (ELEM,))
                            for suf in self.signed_below(p):
                                for q in fl.lv(w.rhs, n):
                                    if suf and p != q and q[0][0] in ("L", "A"):
                                        self.dest.add(q + suf)
                    if w.kind in ("mut:insert", "mut:assign") and is_iter(w.rhs.get("t")):
                        for a in (w.e.get("c") or [])[1:]:
                            for q in fl.pts(a, n):
                                if self.is_signed(q, n):
                                    for p in w.places:
                                        if p + (ELEM,) != q:
                                            self.add(p + (ELEM,), n)
                elif w.kind in ("algo:copy", "algo:set_union", "algo:transform") or w.kind == "mut:swap":
                    for a in (w.e.get("c") or [])[:2]:
                        qs = fl.pts(a, n) if w.kind != "mut:swap" else [q + s for q in fl.lv(a, n) for s in self.signed_below(q)]
                        for q in qs:
                            if self.is_signed(q, n):
                                for p in w.places:
                                    if w.kind == "mut:swap":
                                        pass
                                    else:
                                        self.add(p if p[-1] == ELEM else p + (ELEM,), n)
                    if w.kind == "mut:swap":
                        args = w.e.get("c") or []
                        for a in args:
                            for q in fl.lv(a, n):
                                for suf in self.signed_below(q):
                                    for p in w.places:
                                        if suf and p != q:
                                            self.add(p + suf, n)
                                            if p[0][0] in ("L", "A"):
                                                self.dest.add(p + suf)
            if n.kind == "var" and isinstance(n.e.get("init"), dict) and not is_ref(n.e.get("t")) and "d" in n.e:
                e = n.e["init"]
                cands = [e] + [x for x in (e.get("c") or []) if e["k"] in ("ctor", "init")]
                for x in cands:
                    if is_iter(x.get("t")) and e["k"] == "ctor":
                        for q in fl.pts(x, n):
                            if self.is_signed(q) and not is_iter(n.e.get("t")):
                                self.add((("L", n.e["d"]), ELEM), n)
                        continue
                    if isint(x.get("t")):
                        continue
                    for q in fl.lv(x, n):
                        for suf in self.signed_below(q):
                            if suf and not is_iter(n.e.get("t")) and not is_ptrlike(n.e.get("t")):
                                self.add((("L", n.e["d"]),) + suf, n)
