"""Index-kind inference: which numbering (node, face, cell, neighbour slot, rank ...)
every integer value and every container subscript belongs to, by unification over
an inlined function.  Kinds are seeded by the documented meaning of the mesh data
structures; two different kinds meeting in one value is a conflict."""
import re
from .effects import loop_info, writes
from .flow import ELEM, Flow, bare, deref_local, is_cont, is_iter, is_ptr, is_ptrlike, is_ref
from .ir import const, expr_str, short, strip_casts, walk
from .mpi import back_slice


class TV:
    __slots__ = ("p", "kind", "prov")

    def __init__(self, kind=None, prov=None):
        self.p, self.kind, self.prov = None, kind, prov

    def find(self):
        r = self
        while r.p is not None:
            r = r.p
        while self is not r:
            self.p, self = r, self.p or r
        return r


class Int:
    __slots__ = ("tv",)

    def __init__(self, tv):
        self.tv = tv


class Cont:
    __slots__ = ("key", "pkey", "elem", "keyed")

    def __init__(self, key, pkey, elem, keyed=True):
        self.key, self.pkey, self.elem, self.keyed = key, pkey, elem, keyed


class Pair:
    __slots__ = ("a", "b")

    def __init__(self, a, b):
        self.a, self.b = a, b


class Rec:
    __slots__ = ("cls", "who")

    def __init__(self, cls, who):
        self.cls, self.who = cls, who


REAL = "real"
_INT = re.compile(r"^(unsigned|int|long|short|size_t|std::size_t|signed|unsigned int|unsigned long|long long|unsigned long long|unsigned short|u?int\d+_t|uint|std::u?int\d+_t|std::ptrdiff_t|ptrdiff_t|.*::size_type|.*::difference_type)$")
_FLT = re.compile(r"^(float|double|long double|RealType)$")


def split_args(s):
    """template arguments of  name<...>"""
    i = s.find("<")
    if i < 0:
        return s, []
    name, depth, cur, out = s[:i], 0, "", []
    for ch in s[i + 1:]:
        if ch == "<" or ch == "(":
            depth += 1
        if ch == ">" or ch == ")":
            if depth == 0 and ch == ">":
                break
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return name, out


def clean(t):
    t = (t or "").strip()
    while t.startswith("const "):
        t = t[6:]
    t = t.replace(" const", "").rstrip("&").strip()
    return t


# field -> type description.  I(kind), V(keykind, elem), P(a,b); coordinates: X(pointkind)
def I(k):
    return ("i", k)


def V(k, e):
    return ("v", k, e)


def Xc(k):
    return ("x", k)


TESS = {
    "nodes": Xc("node"),
    "cells": V("cell", V("position in a cell's face list", I("face"))),
    "faces": V("face", V("position in a face's node list", I("node"))),
    "faceCells": V("face", V("position in a face's cell list", I("cell"))),
    "boundaryNodes": V("position in the boundary node list", I("node")),
    "boundaryFaces": V("position in the boundary face list", I("face")),
    "neighborDomains": V("neighbour slot", I("rank")),
    "sharedNodes": V("neighbour slot", V("position in a shared node list", I("node"))),
    "sharedFaces": V("neighbour slot", V("position in a shared face list", I("face"))),
}
QUANT = {
    "nodes": V("node", None),
    "edges": V("face", ("p", I("node"), I("node"))),
    "cellEdges": V("cell", V("position in a cell's face list", I("face"))),
    "generators": V("cell", None),
}
CSTRUCT = {
    "nodes": Xc("node"), "num_nodes": I("node"), "num_cells": I("cell"), "num_faces": I("face"),
    "cell_offsets": V("cell", I("position in cell_faces")),
    "cell_faces": V("position in cell_faces", I("face")),
    "face_offsets": V("face", I("position in face_nodes")),
    "face_nodes": V("position in face_nodes", I("node")),
    "face_cells": ("stride2", "face", I("cell")),
    "boundary_nodes": V("position in the boundary node list", I("node")),
    "boundary_faces": V("position in the boundary face list", I("face")),
    "num_boundary_nodes": I("position in the boundary node list"), "num_boundary_faces": I("position in the boundary face list"),
    "neighbor_domains": V("neighbour slot", I("rank")),
    "num_neighbor_domains": I("neighbour slot"),
    "shared_node_domain_offsets": V("neighbour slot", I("position in shared_nodes")),
    "shared_face_domain_offsets": V("neighbour slot", I("position in shared_faces")),
    "shared_nodes": V("position in shared_nodes", I("node")),
    "shared_faces": V("position in shared_faces", I("face")),
}
PRIMARY = {"node": ("nodes",), "face": ("faces", "edges"), "cell": ("cells", "cellEdges")}


def seeds_for(cls):
    n = split_args(cls or "")[0].split("::")[-1]
    if n == "Tessellation":
        return TESS
    if n in ("QuantizedTessellation2d",):
        return QUANT
    if n in ("polytope_tessellation_t", "polytope_tessellation"):
        return CSTRUCT
    return None


def dim_of(cls):
    a = split_args(cls or "")[1]
    try:
        return int(a[0])
    except (IndexError, ValueError):
        return None


class Infer:
    def __init__(self, prog, inl, res=None):
        self.prog, self.inl = prog, inl
        self.fl = Flow(inl)
        self.cfg = self.fl.cfg
        self.conflicts, self.ok, self.sites = [], 0, []
        self.types, self.deft = {}, {}
        self.fields = {}
        self.memo = {}
        self.busy = set()
        self.cur = None
        self.prime = {}
        self._events()
        self._counters()

    # ------------------------------------------------------------- structure
    def make(self, t, who="", n=0):
        t = clean(t)
        if n > 6:
            return None
        m = re.match(r"^(.*)\[(\d*)\]$", t)
        if m:
            return self.cont(self.make(m.group(1), who, n + 1))
        if t.endswith("*"):
            x = self.make(t[:-1], who, n + 1)
            return x if isinstance(x, Rec) else self.cont(x)
        if _INT.match(t):
            return Int(TV())
        if _FLT.match(t):
            return REAL
        name, a = split_args(t)
        s = name.replace("__cxx11::", "")
        if s in ("std::vector", "std::deque", "std::list", "std::array"):
            return self.cont(self.make(a[0], who, n + 1))
        if s in ("std::set", "std::multiset", "std::unordered_set"):
            c = self.cont(self.make(a[0], who, n + 1))
            c.keyed = False
            return c
        if s in ("std::map", "std::multimap", "std::unordered_map") or s.endswith("CounterMap") and a:
            k = self.make(a[0], who, n + 1)
            v = self.make(a[1], who, n + 1) if len(a) > 1 and not s.endswith("CounterMap") else Int(TV())
            return Cont(TV(), TV(), Pair(k, v), False)
        if s == "std::pair":
            return Pair(self.make(a[0], who, n + 1), self.make(a[1], who, n + 1))
        if t in self.prog.records or split_args(t)[0].split("::")[-1] in ("Tessellation", "QuantizedTessellation2d", "polytope_tessellation_t"):
            return Rec(t, who)
        return None

    def cont(self, e):
        return Cont(TV(), TV(), e)

    def build(self, d, cls, gen):
        """type from a seed description; gen 'new' uses the renumbered kinds"""
        if d is None:
            return None
        if d[0] == "i":
            return Int(self.kind(d[1], gen))
        if d[0] == "v":
            return Cont(self.kind(d[1], gen), TV(), self.build(d[2], cls, gen))
        if d[0] == "x":
            c = Cont(TV("coordinate position"), self.kind(d[1], gen), REAL)
            return c
        if d[0] == "stride2":
            return Cont(TV("2*face position"), self.kind(d[1], gen), self.build(d[2], cls, gen))
        if d[0] == "p":
            return Pair(self.build(d[1], cls, gen), self.build(d[2], cls, gen))

    def kind(self, k, gen):
        if gen == "new" and k in PRIMARY:
            if k not in self.prime:
                self.prime[k] = TV()
            return self.prime[k]
        return TV(k, "declared meaning of the mesh fields")

    # ---------------------------------------------------------------- events
    def _events(self):
        """writes that replace a whole mesh list by a local one, and element
        rewrites x[i] = f(x[i]); an access is 'old' where such an event is still to
        come without going round a loop"""
        fl = self.fl
        self.whole, self.rewr = {}, {}
        for n in self.cfg.livenodes():
            for w in writes(fl, n):
                if w.kind in ("asgn", "mut:swap"):
                    for p in w.places:
                        f = self._meshfield(p)
                        if f and len(p) == f[1] and (w.kind == "mut:swap" or self._conn(w)):
                            self.whole.setdefault(p[:f[1]], []).append(n)
                elif w.kind in ("mut:clear", "mut:resize", "mut:assign"):
                    for p in w.places:
                        f = self._meshfield(p)
                        if f and len(p) == f[1]:
                            self.whole.setdefault(p[:f[1]], []).append(n)
                if w.kind == "asgn" and w.rhs is not None:
                    t = w.target
                    if clean(t.get("t")) and not _INT.match(clean(t.get("t"))):
                        # element list replaced by a local built from the old list:  shared[d] = newList
                        for p in w.places:
                            f = self._meshfield(p)
                            if f and len(p) > f[1] and is_cont(t.get("t") or ""):
                                self.whole.setdefault(p[:f[1]], []).append(n)
                        continue
                    tp = {p for p in w.places if ELEM in p}
                    if not tp:
                        continue
                    _, pl, _ = back_slice(fl, w.rhs, n, 400)
                    for p in tp & pl:
                        f = self._meshfield(p)
                        self.rewr.setdefault(p[:f[1]] if f else p, []).append(n)
        # lists handed to the Silo library are packed records, not index lists
        self.packed = set()
        for n in self.cfg.livenodes():
            for e in fl.subexprs(n, lambdas=False):
                if e["k"] == "call" and not e.get("in") and short(e.get("n", "")).startswith("DB"):
                    for a in e.get("c") or []:
                        if is_ptrlike(a.get("t")):
                            for p in fl.pts(a, n):
                                if p[0][0] == "L":
                                    self.packed.add(p[0])
        pos = self.cfg.rpo()
        self.pos = pos

    def _conn(self, w):
        return w.rhs is not None

    def _meshfield(self, p):
        """(field, prefix length) if place p lies in a seeded mesh field"""
        t = self.root_cls(p[0])
        for i, s in enumerate(p[1:], 1):
            if t is None:
                return None
            sd = seeds_for(t)
            if sd is not None and s in sd and sd is not CSTRUCT:
                return s, i + 1
            t = self._fieldt(t, s) if s != ELEM else None
        return None

    def _fieldt(self, cls, f):
        for x in self.prog.fields(cls):
            if x["n"] == f:
                return clean(x["t"]).rstrip("*").strip()
        return None

    def root_cls(self, r):
        if r[0] in ("L", "A", "LP"):
            return clean(self.fl.tname(r[1])).rstrip("*").strip()
        if r[0] == "T":
            return self.inl.func.cls
        return None

    def before(self, n, evs):
        """some event of evs is still to come at n, without starting another round
        of a loop that contains the event"""
        key = ("b", n.i, tuple(e.i for e in evs))
        if key not in self.memo:
            self.memo[key] = any(n.i in self._ahead(e) for e in evs)
        return self.memo[key]

    def _ahead(self, e):
        key = ("a", e.i)
        if key not in self.memo:
            heads = {}
            for s in e.loops:
                L = loop_info(self.fl, s)
                if L.head is not None:
                    heads[L.head.i] = L.ids
            seen, st = set(), [e]
            while st:
                x = st.pop()
                if x.i in seen:
                    continue
                seen.add(x.i)
                ids = heads.get(x.i)
                for p, _ in x.pred:
                    if ids is not None and p.i in ids:
                        continue
                    st.append(p)
            self.memo[key] = seen
        return self.memo[key]

    # -------------------------------------------------------------- counters
    def _counters(self):
        """locals that number the elements of a loop selectively"""
        self.counter = {}
        fl = self.fl
        for d, ds in fl.by_local.items():
            v = fl.vars.get(d, {})
            if not _INT.match(clean(v.get("t"))) or v.get("param"):
                continue
            ups = [x for x in ds if x.kind == "upd"]
            if not ups or any(x.kind in ("byref", "weak", "range", "param") for x in ds):
                continue
            for x in ups:
                e = x.e
                if not x.node.loops:
                    continue
                selective = False
                if e["k"] in ("un", "opcall") and e["o"] == "++":
                    s = x.node.loops[-1]
                    selective = not self._every(x.node, s)
                elif e["o"] == "+=" and const(e["c"][1]) is None:
                    r = strip_casts(e["c"][1])
                    selective = r["k"] in ("idx", "opcall", "mcall", "ref", "un", "cond", "bin") and any(y.get("o") == "[]" or y["k"] == "idx" for y in walk(r))
                if selective:
                    self.counter[d] = True
        # only those whose value is stored per element
        used = set()
        for n in self.cfg.livenodes():
            for w in writes(fl, n):
                if w.kind == "asgn" and w.rhs is not None and any(ELEM in p for p in w.places):
                    r = strip_casts(w.rhs)
                    if r["k"] == "un" and r["o"] in ("++",):
                        r = strip_casts(r["c"][0])
                    dd = deref_local(r)
                    if dd in self.counter:
                        used.add(dd)
        for d in list(self.counter):
            if d in used:
                self.counter[d] = TV("new number counted by " + fl.vname(d), fl.vname(d))
            else:
                del self.counter[d]

    def _every(self, n, s):
        """node n runs on every iteration of loop s"""
        L = loop_info(self.fl, s)
        if L.head is None:
            return True
        # can the head be reached again from the head without n
        seen, st = set(), [x for x, _ in L.head.succ]
        ids = L.ids
        while st:
            x = st.pop()
            if x is n or x.i in seen or x.i not in ids and x is not L.head:
                continue
            if x is L.head:
                return False
            seen.add(x.i)
            st.extend(y for y, _ in x.succ)
        return True

    def good(self, e, n, what, kind):
        self.ok += 1
        self.sites.append((self.inl.loc(e if "l" in e else n.e or {}), what, kind))

    # ----------------------------------------------------------------- unify
    def uni(self, a, b, e, n, what):
        if a is None or b is None or a is REAL or b is REAL:
            return
        if isinstance(a, Int):
            a = a.tv
        if isinstance(b, Int):
            b = b.tv
        if isinstance(a, TV) and isinstance(b, TV):
            ra, rb = a.find(), b.find()
            if ra is rb:
                if ra.kind:
                    self.good(e, n, what, ra.kind)
                return
            if ra.kind and rb.kind and ra.kind != rb.kind:
                self.conflicts.append((self.inl.loc(e if "l" in e else n.e or {}), what, ra.kind, ra.prov, rb.kind, rb.prov, expr_str(e)))
                return
            if ra.kind and rb.kind:
                self.good(e, n, what, ra.kind)
            if ra.kind is None:
                ra, rb = rb, ra
            rb.p = ra
            if ra.kind and not ra.prov:
                ra.prov = "%s (%s)" % (expr_str(e), self.inl.loc(e))
            return
        if isinstance(a, Cont) and isinstance(b, Cont):
            if a is b:
                return
            if a.keyed and b.keyed:
                self.uni(a.key, b.key, e, n, what)
                self.uni(a.pkey, b.pkey, e, n, what)
            self.uni(a.elem, b.elem, e, n, what)
            return
        if isinstance(a, Pair) and isinstance(b, Pair):
            if a is b:
                return
            self.uni(a.a, b.a, e, n, what)
            self.uni(a.b, b.b, e, n, what)

    # ---------------------------------------------------------- place types
    def ptype(self, p, n, store=False):
        f = self._meshfield(p)
        if f:
            pre = p[:f[1]]
            evs = self.whole.get(pre, []) + self.rewr.get(pre, [])
            gen = "old"
            if store and evs:
                gen = "new" if any(e is n for e in evs) or not self.before(n, evs) or True else "old"
                # stores before any event of a list that is later replaced belong to the old list
                if not any(e is n for e in evs) and self.before(n, evs):
                    gen = "old"
            elif evs and not self.before(n, evs):
                gen = "new"
            cls = self.root_cls(p[0]) if f[1] == 2 else self._cls_at(p, f[1] - 1)
            key = (cls, f[0], gen)
            if key not in self.fields:
                self.fields[key] = self.build(seeds_for(cls)[f[0]], cls, gen)
            t = self.fields[key]
            rest = p[f[1]:]
        else:
            t, rest = self.rtype(p[0]), p[1:]
            leafgen = None
            evs = None
            for k in range(len(p), 0, -1):
                if p[:k] in self.rewr:
                    evs = self.rewr[p[:k]]
                    break
            if evs is None:
                evs = [e for q, es in self.rewr.items() if q[:len(p)] == p for e in es] or None
            if evs and p[0][0] != "T":
                pre = self.before(n, evs)
                if store and any(e is n for e in evs):
                    pre = False
                if pre:
                    t = self.oldtype(p[0], t)
        cls = None
        for s in rest:
            if t is None:
                return None
            if s == ELEM:
                if not isinstance(t, Cont):
                    return None
                t = t.elem
            elif isinstance(t, Pair) and s in ("first", "second"):
                t = t.a if s == "first" else t.b
            elif isinstance(t, Rec):
                t = self.recfield(t, s)
            else:
                return None
        return t

    def _cls_at(self, p, i):
        t = self.root_cls(p[0])
        for s in p[1:i]:
            t = self._fieldt(t, s) if t and s != ELEM else None
        return t

    def recfield(self, t, s):
        sd = seeds_for(t.cls)
        key = (t.cls, s, "old", None if sd else t.who)
        if key not in self.fields:
            if sd and s in sd:
                self.fields[key] = self.build(sd[s], t.cls, "old")
            else:
                ft = next((x["t"] for x in self.prog.fields(t.cls) if x["n"] == s), None)
                self.fields[key] = self.make(ft, (t.who, s)) if ft else None
        return self.fields[key]

    def rtype(self, r):
        if r not in self.types:
            if r[0] in ("L", "A", "LP"):
                self.types[r] = self.make(self.fl.tname(r[1]), r)
                t = self.types[r]
                if r in self.packed and isinstance(t, Cont):
                    t.elem = None
            elif r[0] == "T":
                self.types[r] = Rec(self.inl.func.cls or "?", r)
            else:
                self.types[r] = None
        return self.types[r]

    def oldtype(self, r, t):
        """same containers, but the innermost values are those before the rewrite"""
        k = ("old", r)
        if k not in self.types:
            def cp(x):
                if isinstance(x, Int):
                    return Int(TV())
                if isinstance(x, Cont):
                    return Cont(x.key, x.pkey, cp(x.elem), x.keyed)
                if isinstance(x, Pair):
                    return Pair(cp(x.a), cp(x.b))
                return x
            self.types[k] = cp(t)
        return self.types[k]

    # ------------------------------------------------------ expression types
    def lty(self, e, n, store=False):
        """type of an lvalue expression through its places"""
        r = None
        for p in sorted(self.fl.lv(e, n), key=repr):
            t = self.ptype(p, n, store)
            if t is None:
                continue
            if r is None:
                r = t
            elif r is not t:
                self.uni(r, t, e, n, "alias")
        return r

    def ty(self, e, n):
        if e is None:
            return None
        key = (id(e), n.i)
        if key in self.memo:
            return self.memo[key]
        if key in self.busy:
            return None
        self.busy.add(key)
        r = self._ty(e, n)
        self.busy.discard(key)
        self.memo[key] = r
        return r

    def deftype(self, x):
        if x.i in self.deft:
            return self.deft[x.i]
        tv = TV()
        self.deft[x.i] = Int(tv)
        if x.d in self.counter:
            self.uni(tv, self.counter[x.d], x.e or {"k": "x"}, x.node, "counter")
        elif x.kind in ("init", "asgn"):
            t = self.ty(x.e, x.node)
            if isinstance(t, Int):
                self.uni(tv, t, x.e, x.node, "value of " + self.fl.vname(x.d))
        elif x.kind == "upd" and x.e["o"] in ("++", "--", "+=", "-="):
            for y in self.fl.reaching(x.node, x.d):
                if y is not x:
                    self.uni(tv, self.deftype(y), x.e, x.node, "value of " + self.fl.vname(x.d))
        elif x.kind == "range":
            t = self.lty(x.e, x.node) or self.ty(x.e, x.node)
            if isinstance(t, Cont) and isinstance(t.elem, Int):
                self.uni(tv, t.elem, x.e, x.node, "value of " + self.fl.vname(x.d))
        elif x.kind == "byref" and x.e["k"] == "call" and short(x.e.get("n", "")) in ("MPI_Comm_rank", "MPI_Comm_size"):
            self.uni(tv, TV("rank", "MPI_Comm_rank"), x.e, x.node, "rank")
        return self.deft[x.i]

    def _ty(self, e, n):
        k = e["k"]
        c = e.get("c") or []
        if k == "cast":
            return self.ty(c[0], n)
        if k == "inl":
            r = None
            for n2, x in self.fl.rets(e):
                t = self.lty(x, n2) if is_cont(x.get("t")) or is_ref(e.get("rt")) else self.ty(x, n2)
                if r is None:
                    r = t
                else:
                    self.uni(r, t, x, n2, "returned value")
            return r
        if k == "ref" and e.get("dk") in ("local", "param"):
            d = e["d"]
            t = self.fl.tname(d)
            if is_ref(t) or not _INT.match(clean(t)):
                return self.lty(e, n)
            r = None
            for x in self.fl.reaching(n, d):
                y = self.deftype(x)
                if r is None:
                    r = y
                else:
                    self.uni(r, y, e, n, "value of " + self.fl.vname(d))
            return r
        if k in ("ref", "mem", "idx", "this"):
            return self.lty(e, n)
        if k == "un":
            if e["o"] in ("~", "+", "++", "--"):
                return self.ty(c[0], n)
            if e["o"] == "*":
                return self.lty(e, n)
            return None
        if k == "asgn":
            return self.lty(e, n)
        if k == "cond":
            a, b = self.ty(c[1], n), self.ty(c[2], n)
            if a is not None and b is not None:
                self.uni(a, b, e, n, "value")
            return a or b
        if k == "bin":
            if e["o"] == ",":
                return self.ty(c[1], n)
            if e["o"] in ("+", "-"):
                if const(c[1]) is not None:
                    return self.ty(c[0], n)
                if const(c[0]) is not None and e["o"] == "+":
                    return self.ty(c[1], n)
                if e["o"] == "-":
                    return self.dist(c[1], c[0], n)
                return None
            if e["o"] == "%":
                return self.ty(c[0], n)
            if e["o"] == "/":
                a = strip_casts(c[0])
                d = const(c[1])
                s = self.sizeof(a, n)
                if s is not None and d is not None and s.elem is REAL:
                    return Int(s.pkey)
                # through a local holding the size
                return None
            return None
        if k == "opcall":
            o = e["o"]
            if o in ("[]", "*", "->"):
                return self.lty(e, n)
            if o == "-" and len(c) == 2:
                return self.dist(c[1], c[0], n)
            return None
        if k == "mcall":
            mn = e.get("mn") or short(e.get("n", ""))
            if e.get("conv"):
                return self.ty(c[0], n)
            if mn == "size":
                s = self.sizeof(e, n)
                if s is not None and s.keyed:
                    return Int(s.key)
                return None
            if mn in ("front", "back", "at", "top"):
                return self.lty(e, n)
            return None
        if k == "call":
            s = short(e.get("n", ""))
            if s in ("min", "max") and len(c) >= 2 and not _FLT.match(clean(e.get("t"))):
                a, b = self.ty(c[0], n), self.ty(c[1], n)
                return a or b
            if s == "distance" and len(c) == 2:
                return self.dist(c[0], c[1], n)
            if s in ("move", "forward") and c:
                return self.lty(c[0], n) or self.ty(c[0], n)
            if s == "make_pair" and len(c) == 2:
                return Pair(self.ty(c[0], n), self.ty(c[1], n))
            return None
        if k == "ctor":
            a = [x for x in c if x["k"] != "x"]
            t = clean(e.get("t"))
            if len(a) == 1:
                r = self.lty(a[0], n)
                if r is None:
                    r = self.ty(a[0], n)
                st = clean(a[0].get("t"))
                if is_cont(t) and not is_cont(st) and not is_ptrlike(st):
                    m = self.make(t)
                    if isinstance(m, Cont):
                        self.sized(m, a[0], n)
                    return m
                return r
            if len(a) == 2 and t.startswith("std::pair"):
                return Pair(self.ty(a[0], n), self.ty(a[1], n))
            if is_cont(t):
                m = self.make(t)
                if isinstance(m, Cont):
                    if len(a) >= 2 and not is_ptrlike(a[0].get("t")):
                        self.sized(m, a[0], n)
                        v = self.ty(a[1], n)
                        self.uni(m.elem, v, a[1], n, "initial element")
                    elif len(a) >= 2:
                        self.uni(m.elem, self.elem_of_ptr(a[0], n), a[0], n, "copied element")
                    elif not a:
                        pass
                return m
            return None
        return None

    def sizeof(self, e, n):
        """container whose size() e is"""
        e = strip_casts(e)
        if e["k"] == "mcall" and (e.get("mn") or short(e.get("n", ""))) == "size":
            r = None
            for p in self.fl.obj(e, n):
                t = self.ptype(p, n)
                if isinstance(t, Cont):
                    return t
            return r
        d = deref_local(e)
        if d is not None and not is_ref(self.fl.tname(d)):
            ds = self.fl.reaching(n, d)
            if len(ds) == 1 and ds[0].kind in ("init", "asgn"):
                return self.sizeof(ds[0].e, ds[0].node)
        return None

    def sized(self, cont, e, n):
        """cont gets length e"""
        if cont.elem is REAL:
            a = self.stride_atom(e, n)
            if a is not None:
                self.uni(cont.pkey, self.ty(a[1], a[2]), e, n, "size")
                return
        t = self.ty(e, n)
        if isinstance(t, Int):
            self.uni(cont.key, t, e, n, "size")

    def elem_of_ptr(self, e, n):
        r = None
        for p in sorted(self.fl.pts(e, n), key=repr):
            t = self.ptype(p, n)
            if t is not None:
                if r is None:
                    r = t
                else:
                    self.uni(r, t, e, n, "alias")
        return r

    def dist(self, a, b, n):
        """type of b - a for iterators: a position in the container"""
        if is_ptrlike(b.get("t")):
            for p in self.fl.pts(b, n):
                if p and p[-1] == ELEM:
                    t = self.ptype(p[:-1], n)
                    if isinstance(t, Cont) and t.keyed:
                        return Int(t.key)
        return None

    # --------------------------------------------------------------- stride
    def stride_atom(self, e, n, depth=0):
        """e = D*a + rest : (D, a, node) with D a constant > 1"""
        e = strip_casts(e)
        if depth > 6:
            return None
        if e["k"] == "bin" and e["o"] in ("+", "-"):
            return self.stride_atom(e["c"][0], n, depth + 1) or (self.stride_atom(e["c"][1], n, depth + 1) if e["o"] == "+" else None)
        if e["k"] == "bin" and e["o"] == "*":
            for x, y in ((e["c"][0], e["c"][1]), (e["c"][1], e["c"][0])):
                v = const(x)
                if v is not None and v > 1:
                    return v, y, n
        d = deref_local(e)
        if d is not None and not is_ref(self.fl.tname(d)):
            ds = self.fl.reaching(n, d)
            if len(ds) == 1 and ds[0].kind in ("init", "asgn"):
                return self.stride_atom(ds[0].e, ds[0].node, depth + 1)
        return None

    def subscript(self, cont, ix, e, n, dim):
        if not isinstance(cont, Cont):
            return
        if not cont.keyed:
            # map
            if isinstance(cont.elem, Pair):
                self.uni(cont.elem.a, self.ty(ix, n), e, n, "key of %s" % expr_str(e["c"][0]))
            return
        special = cont.key.find().kind in ("coordinate position", "2*face position")
        if cont.elem is REAL or special:
            a = self.stride_atom(ix, n)
            if a is not None:
                if special and dim and a[0] != dim:
                    self.conflicts.append((self.inl.loc(e), "stride", "stride %d" % dim, "dimension of the mesh", "stride %d" % a[0], "subscript", expr_str(e)))
                    return
                self.uni(cont.pkey, self.ty(a[1], a[2]), e, n, "subscript of %s" % expr_str(e["c"][0]))
                return
            if const(ix) is not None:
                return
            t = self.ty(ix, n)
            if isinstance(t, Int) and t.tv.find().kind:
                self.uni(cont.key, t, e, n, "subscript of %s (no stride)" % expr_str(e["c"][0]))
            return
        if const(ix) is not None:
            return
        self.uni(cont.key, self.ty(ix, n), e, n, "subscript of %s" % expr_str(e["c"][0]))

    def dimof(self, e, n):
        """dimension of the mesh that owns the coordinate list e"""
        for p in self.fl.lv(e, n):
            f = self._meshfield(p)
            if f and f[0] == "nodes":
                cls = self.root_cls(p[0]) if f[1] == 2 else self._cls_at(p, f[1] - 1)
                if seeds_for(cls) is TESS:
                    return dim_of(cls)
        return None

    # ------------------------------------------------------------------ run
    def run(self):
        fl = self.fl
        order = sorted(self.cfg.livenodes(), key=lambda n: self.pos.get(n.i, 1 << 30))
        seen_loops = {}
        for n in order:
            for s in n.loops:
                if id(s) not in seen_loops:
                    seen_loops[id(s)] = s
                    self.loop(s)
            self.node(n)
        return self

    def loop(self, s):
        if s["k"] == "forrange":
            return
        L = loop_info(self.fl, s)
        if L.var is None or not _INT.match(clean(self.fl.tname(L.var))) or L.op not in ("<", "!=", "not_eq"):
            return
        if L.step != 1:
            return
        if const(L.bound_e) is not None:
            return
        b = self.ty(L.bound_e, L.bound_n)
        if not isinstance(b, Int):
            return
        for x in self.fl.reaching(L.bound_n, L.var):
            self.uni(self.deftype(x), b, L.bound_e, L.bound_n, "loop variable " + self.fl.vname(L.var))

    def node(self, n):
        fl = self.fl
        if n.kind == "var":
            v = n.e
            t = v.get("t") or ""
            init = v.get("init")
            if isinstance(init, dict) and not is_ref(t) and not is_ptrlike(t) and not _INT.match(clean(t)):
                self.uni(self.ptype((fl.root(v["d"]),), n, True), self.val(init, n), init, n, "initial value of " + v.get("n", "?"))
        for e in fl.subexprs(n, lambdas=False):
            self.one(e, n)

    def val(self, e, n):
        return self.ty(e, n)

    def one(self, e, n):
        fl = self.fl
        k = e["k"]
        c = e.get("c") or []
        if k == "opcall" and e["o"] == "[]" and not is_ptrlike(c[0].get("t")):
            self.subscript(self.lty(c[0], n), c[1], e, n, self.dimof(c[0], n))
        elif k == "opcall" and e["o"] == "[]" or k == "idx":
            b = strip_casts(c[0])
            if b["k"] == "mem":
                self.subscript(self.lty(b, n), c[1], e, n, None)
            elif b["k"] == "ref" and b.get("dk") in ("local", "param"):
                t = self.rtype(("L", b["d"])) if not is_ref(fl.tname(b["d"])) else self.lty(b, n)
                if fl.vars.get(b["d"], {}).get("param") and is_ptr(fl.tname(b["d"])):
                    t = self.rtype(("A", b["d"]))
                if isinstance(t, Cont) and (fl.vars.get(b["d"], {}).get("param") or fl.tname(b["d"]).endswith("]")):
                    self.subscript(t, c[1], e, n, None)
        elif k == "asgn" and e["o"] == "=" or k == "opcall" and e["o"] == "=" and len(c) == 2:
            t = clean(c[0].get("t"))
            d = deref_local(c[0])
            if d is not None and not is_ref(fl.tname(d)) and _INT.match(clean(fl.tname(d))):
                return
            if is_ptrlike(c[0].get("t")) and not (strip_casts(c[0])["k"] == "mem"):
                return
            self.uni(self.lty(c[0], n, True), self.val(c[1], n), e, n, "value stored in %s" % expr_str(c[0]))
        elif k == "mcall":
            mn = e.get("mn") or short(e.get("n", ""))
            a = c[1:]
            if not (e.get("cls") or e.get("n", "")).startswith("std::") and not is_cont(c[0].get("t")):
                return
            ts = [self.ptype(p, n, mn not in ("find", "count", "at", "lower_bound", "upper_bound")) for p in sorted(fl.obj(e, n), key=repr)]
            for t in ts:
                if not isinstance(t, Cont):
                    continue
                if mn in ("push_back", "push_front", "emplace_back", "push") and len(a) == 1:
                    self.uni(t.elem, self.val(a[0], n), e, n, "value added to %s" % expr_str(c[0]))
                elif mn in ("insert", "emplace") and a:
                    if len(a) == 1:
                        self.uni(t.elem, self.val(a[0], n), e, n, "value added to %s" % expr_str(c[0]))
                    elif len(a) == 2 and is_ptrlike(a[0].get("t")) and is_ptrlike(a[1].get("t")):
                        self.uni(t.elem, self.elem_of_ptr(a[0], n), e, n, "values added to %s" % expr_str(c[0]))
                    elif len(a) == 2 and is_ptrlike(a[0].get("t")):
                        self.uni(t.elem, self.val(a[1], n), e, n, "value added to %s" % expr_str(c[0]))
                    elif len(a) == 3 and is_ptrlike(a[1].get("t")):
                        self.uni(t.elem, self.elem_of_ptr(a[1], n), e, n, "values added to %s" % expr_str(c[0]))
                elif mn in ("resize", "assign") and a:
                    if is_ptrlike(a[0].get("t")):
                        self.uni(t.elem, self.elem_of_ptr(a[0], n), e, n, "values assigned to %s" % expr_str(c[0]))
                    else:
                        self.sized(t, a[0], n)
                        if len(a) > 1:
                            self.uni(t.elem, self.val(a[1], n), e, n, "initial element of %s" % expr_str(c[0]))
                elif mn in ("find", "count", "lower_bound", "upper_bound", "erase") and len(a) == 1 and not is_ptrlike(a[0].get("t")):
                    key = t.elem.a if isinstance(t.elem, Pair) and not t.keyed else t.elem
                    if not t.keyed:
                        self.uni(key, self.val(a[0], n), e, n, "key looked up in %s" % expr_str(c[0]))
                elif mn == "at" and a:
                    self.subscript(t, a[0], e, n, None)
                elif mn == "swap" and a:
                    self.uni(t, self.lty(a[0], n), e, n, "swapped lists")
        elif k == "call":
            s = short(e.get("n", ""))
            nm = e.get("n", "")
            if s in ("copy", "copy_backward", "unique_copy") and len(c) >= 3 and not e.get("in"):
                src = self.elem_of_ptr(c[0], n)
                for p in sorted(fl.pts(c[2], n), key=repr):
                    self.uni(self.ptype(p, n, True), src, e, n, "copied values")
            elif s in ("find", "lower_bound", "upper_bound", "binary_search", "count") and len(c) >= 3 and nm.startswith("std::"):
                self.uni(self.elem_of_ptr(c[0], n), self.ty(c[2], n), e, n, "value searched for")
            elif s in ("set_intersection", "set_union", "set_difference", "merge") and len(c) >= 5:
                a, b = self.elem_of_ptr(c[0], n), self.elem_of_ptr(c[2], n)
                self.uni(a, b, e, n, "merged values")
                for p in sorted(fl.pts(c[4], n), key=repr):
                    self.uni(self.ptype(p, n, True), a, e, n, "merged values")
            elif s in ("fill",) and len(c) == 3:
                for p in sorted(fl.pts(c[0], n), key=repr):
                    self.uni(self.ptype(p, n, True), self.ty(c[2], n), e, n, "fill value")
            elif nm in ("MPI_Send", "MPI_Isend", "MPI_Recv", "MPI_Irecv") and len(c) > 3:
                self.uni(self.ty(c[3], n), TV("rank", nm), c[3], n, "peer of " + nm)
            elif nm in ("MPI_Bcast",) and len(c) > 3:
                self.uni(self.ty(c[3], n), TV("rank", nm), c[3], n, "root of " + nm)
