"""Reaching definitions and access paths ("places") over an inlined function.

A place is (root, step, step, ...).  Pointers, references and iterators are
collapsed onto what they point to, so `v[i]`, `*it`, `v.begin()[i]`, `p->x`
with p=&v.front() all denote elements of v:  root(v), '[]', ...
"""
import re
from .ir import CFG, AnalysisError, callee, const, expr_str, kids, short, strip_casts, walk

ELEM = "[]"
_ITER = re.compile(r"__normal_iterator<|_Rb_tree_(const_)?iterator<|_List_(const_)?iterator<|_Deque_iterator<|_Node_(const_)?iterator<|"
                   r"reverse_iterator<|back_insert_iterator<|front_insert_iterator<|(?<!_)insert_iterator<|_Bit_iterator|_Bit_const_iterator")
_CONT = re.compile(r"^(const )?std::(__cxx11::)?(vector|set|map|multiset|multimap|list|deque|basic_string|unordered_map|unordered_set|array|stack|queue|priority_queue)<")
FRONTLIKE = {"front", "back", "at", "operator[]", "top", "begin", "end", "rbegin", "rend", "cbegin", "cend", "data", "find", "lower_bound",
             "upper_bound", "c_str", "get", "emplace", "crbegin", "crend"}
STEPPERS = {"next", "prev", "min_element", "max_element", "find", "find_if", "lower_bound", "upper_bound", "unique", "remove", "remove_if", "partition",
            "adjacent_find", "search", "find_if_not", "stable_partition", "rotate", "begin", "end", "__addressof", "addressof", "move", "forward"}
MUTATORS = {"push_back", "pop_back", "insert", "erase", "clear", "resize", "assign", "reserve", "swap", "push_front", "pop_front", "emplace_back",
            "emplace", "sort", "unique", "remove", "splice", "merge", "append", "push", "pop", "operator=", "shrink_to_fit", "reverse",
            "operator+=", "emplace_front", "remove_if"}


def is_iter(t):
    t = t or ""
    t = t.replace("const ", "").replace("&", "").strip()
    m = _ITER.match(t.replace("__gnu_cxx::", "").replace("std::", "").strip())
    return bool(m)


def is_ptr(t):
    t = (t or "").strip()
    return t.endswith("*") or t.endswith("*const") or t.endswith("* const") or t.endswith("*restrict")


def is_ref(t):
    return (t or "").strip().endswith("&")


def is_ptrlike(t):
    t = (t or "").strip()
    if t.endswith("&"):
        t = t.rstrip("& ")
    return is_ptr(t) or is_iter(t)


def is_cont(t):
    t = (t or "").rstrip("& ")
    return bool(_CONT.match(t))


def is_arr(t):
    return (t or "").rstrip("& ").endswith("]")


def bare(t):
    t = (t or "").replace("const ", "").strip()
    return t.rstrip("&* ").strip()


_SCALAR = re.compile(r"^(const )?(unsigned|int|long|short|char|signed|float|double|bool|size_t|uint\w+|int\d+_t|std::size_t)\b[^<*&\[]*&?$")


def is_scalar(t):
    return bool(_SCALAR.match((t or "").strip()))


class Def:
    __slots__ = ("i", "node", "d", "kind", "e", "v")

    def __init__(self, i, node, d, kind, e, v=None):
        self.i, self.node, self.d, self.kind, self.e, self.v = i, node, d, kind, e, v

    def __repr__(self):
        return "Def(%d,%s,%s)" % (self.d, self.kind, expr_str(self.e))


def deref_local(e):
    """local id if e is (casts of) a plain local/param reference."""
    e = strip_casts(e)
    if e is not None and e["k"] == "ref" and e.get("dk") in ("local", "param"):
        return e["d"]
    return None


class Flow:
    def __init__(self, inl, cfg=None):
        self.inl = inl
        self.cfg = cfg or CFG(inl.body)
        self.vars = {}
        for p in inl.params:
            self.vars[p["d"]] = {"n": p["n"], "t": p["t"], "param": True, "d": p["d"]}
        for n in self.cfg.nodes:
            if n.kind == "var" and "d" in n.e:
                self.vars.setdefault(n.e["d"], n.e)
        for x in walk(inl.body):
            if x["k"] == "lambda":
                for p in x.get("params") or []:
                    self.vars.setdefault(p["d"], {"n": p["n"], "t": p["t"], "lparam": True, "d": p["d"]})
                for y in walk(x.get("body")):
                    if y["k"] == "var" and "d" in y:
                        self.vars.setdefault(y["d"], y)
        self._defs()
        self._memo = {}

    def tname(self, d):
        return self.vars.get(d, {}).get("t", "")

    def vname(self, d):
        return self.vars.get(d, {}).get("n", "?%s" % d)

    # ------------------------------------------------------------ definitions
    def _defs(self):
        self.defs, self.by_node, self.by_local = [], {}, {}

        def add(node, d, kind, e, v=None):
            x = Def(len(self.defs), node, d, kind, e, v)
            self.defs.append(x)
            self.by_node.setdefault(node.i, []).append(x)
            self.by_local.setdefault(d, []).append(x)
        for p in self.inl.params:
            add(self.cfg.entry, p["d"], "param", None)
        for n in self.cfg.livenodes():
            if n.e is None:
                continue
            if n.kind == "var":
                v = n.e
                if "d" in v:
                    if v.get("rangeof"):
                        add(n, v["d"], "range", v["rangeof"], v)
                    elif isinstance(v.get("init"), dict):
                        self._scan(n, v["init"], add)
                        add(n, v["d"], "init", v["init"], v)
                    else:
                        add(n, v["d"], "none", None, v)
                continue
            if n.kind in ("expr", "cond", "ret", "inlret", "range"):
                e = n.e
                if n.kind in ("ret", "inlret"):
                    e = e["c"][0] if e.get("c") else None
                if n.kind == "range":
                    e = e["c"][1]
                if e is not None and e["k"] != "rangecond":
                    self._scan(n, e, add)
        # bitset reaching defs
        lmask = {d: sum(1 << x.i for x in xs) for d, xs in self.by_local.items()}
        gen, kill = {}, {}
        for i, xs in self.by_node.items():
            g = k = 0
            for x in xs:
                if x.kind != "weak":
                    k |= lmask[x.d]
                    g &= ~lmask[x.d]
                g |= 1 << x.i
            gen[i], kill[i] = g, k
        IN = {n.i: 0 for n in self.cfg.nodes}
        OUT = {n.i: 0 for n in self.cfg.nodes}
        work = [n for n in self.cfg.livenodes()]
        inq = {n.i for n in work}
        from collections import deque
        q = deque(work)
        while q:
            n = q.popleft()
            inq.discard(n.i)
            v = 0
            for p, _ in n.pred:
                v |= OUT[p.i]
            IN[n.i] = v
            o = (v & ~kill.get(n.i, 0)) | gen.get(n.i, 0)
            if o != OUT[n.i]:
                OUT[n.i] = o
                for s, _ in n.succ:
                    if s.i not in inq:
                        inq.add(s.i)
                        q.append(s)
        self.IN, self.OUT = IN, OUT
        self._lmask = lmask

    def _scan(self, n, e, add):
        """assignments inside an expression (inl nodes were hoisted)"""
        if e is None or e["k"] in ("inl", "lambda"):
            if e is not None and e["k"] == "lambda":
                for x in walk(e.get("body")):
                    if x["k"] == "asgn" or (x["k"] == "un" and x["o"] in ("++", "--")):
                        d = deref_local(x["c"][0])
                        if d is not None:
                            add(n, d, "weak", None)
            return
        k = e["k"]
        c = e.get("c") or []
        if k == "asgn" or (k == "opcall" and e["o"] in ("=", "+=", "-=", "*=", "/=", "|=", "&=", "^=", "<<=", ">>=")):
            for x in kids(e):
                self._scan(n, x, add)
            d = deref_local(c[0]) if c else None
            if d is not None and len(c) > 1 and not is_ref(self.tname(d)):
                if e["o"] == "=":
                    add(n, d, "asgn", c[1])
                else:
                    add(n, d, "upd", e)
            elif d is not None and e["o"] == "=" and is_ref(self.tname(d)):
                pass
            return
        if (k == "un" and e["o"] in ("++", "--")) or (k == "opcall" and e["o"] in ("++", "--")):
            for x in c[:1]:
                self._scan(n, x, add)
            d = deref_local(c[0])
            if d is not None and not is_ref(self.tname(d)):
                add(n, d, "upd", e)
            return
        for x in kids(e):
            self._scan(n, x, add)
        if k in ("call", "mcall", "opcall", "ctor"):
            pm = e.get("pm") or []
            args = c
            if k == "mcall" or (k == "opcall" and e.get("meth")):
                args = c[1:]
            for i, a in enumerate(args):
                mode = pm[i] if i < len(pm) else ("v" if not e.get("va") else "v")
                t = strip_casts(a)
                if mode == "m":
                    d = deref_local(t)
                    if d is not None and not is_ref(self.tname(d)):
                        add(n, d, "byref", e)
                elif mode == "mp" or (i >= len(pm)):
                    if t["k"] == "un" and t["o"] == "&":
                        d = deref_local(t["c"][0])
                        if d is not None and not is_ref(self.tname(d)):
                            add(n, d, "byref", e)

    def reaching(self, node, d):
        m = self.IN[node.i] & self._lmask.get(d, 0)
        r = []
        while m:
            b = m & -m
            r.append(self.defs[b.bit_length() - 1])
            m ^= b
        return r

    def reaching_out(self, node, d):
        m = self.OUT[node.i] & self._lmask.get(d, 0)
        r = []
        while m:
            b = m & -m
            r.append(self.defs[b.bit_length() - 1])
            m ^= b
        return r

    # ----------------------------------------------------------------- places
    def rets(self, inl):
        return [(n, n.e["c"][0]) for n in self.cfg.inlrets.get(id(inl), []) if n.e.get("c")]

    def root(self, d):
        v = self.vars.get(d, {})
        if v.get("param") and (is_ref(v.get("t")) or is_ptrlike(v.get("t"))):
            return ("A", d)
        return ("L", d)

    def lv(self, e, node, seen=()):
        """places an lvalue expression denotes (set)."""
        if not seen and e is not None:
            key = (0, id(e), node.i)
            if key not in self._memo:
                self._memo[key] = self._lv(e, node, ())
            return self._memo[key]
        return self._lv(e, node, seen)

    def pts(self, e, node, seen=()):
        """what a pointer / iterator valued expression points to (set of places)."""
        if not seen and e is not None:
            key = (1, id(e), node.i)
            if key not in self._memo:
                self._memo[key] = self._pts(e, node, ())
            return self._memo[key]
        return self._pts(e, node, seen)

    def _lv(self, e, node, seen=()):
        if e is None:
            return frozenset()
        k = e["k"]
        c = e.get("c") or []
        if k == "cast":
            return self.lv(c[0], node, seen)
        if k == "ref":
            dk = e.get("dk")
            if dk in ("local", "param"):
                d = e["d"]
                t = self.tname(d)
                if is_ref(t):
                    return self._through(d, node, seen, ref=True)
                return frozenset([(self.root(d) if not is_ptrlike(t) else ("L", d),)])
            if dk == "global":
                return frozenset([(("G", e.get("n", "?")),)])
            return frozenset([(("F", e.get("n", "?")),)])
        if k == "this":
            return frozenset([(("T",),)])
        if k == "mem":
            b = c[0]
            if e.get("arrow"):
                base = self.pts(b, node, seen)
            else:
                base = self.lv(b, node, seen) if not is_ptrlike(b.get("t")) else self.pts(b, node, seen)
            return frozenset(p + (e["n"],) for p in base)
        if k == "un" and e["o"] == "*":
            return self.pts(c[0], node, seen)
        if k == "un" and e["o"] in ("++", "--"):
            return self.lv(c[0], node, seen)
        if k == "idx":
            return self.pts(c[0], node, seen)
        if k == "asgn":
            return self.lv(c[0], node, seen)
        if k == "cond":
            return self.lv(c[1], node, seen) | self.lv(c[2], node, seen)
        if k == "bin" and e["o"] == ",":
            return self.lv(c[1], node, seen)
        if k == "opcall":
            o = e["o"]
            if o == "*" and len(c) == 1:
                return self.pts(c[0], node, seen)
            if o == "[]":
                if is_ptrlike(c[0].get("t")):
                    return self.pts(c[0], node, seen)
                base = self.lv(c[0], node, seen)
                st = ("second",) if "map<" in (c[0].get("t") or "").split(",")[0] and "map<" in bare(c[0].get("t"))[:24] else ()
                return frozenset(p + (ELEM,) + st for p in base)
            if o == "->":
                return self.pts(c[0], node, seen)
            if o in ("=", "+=", "-=", "*=", "/=", "<<", ">>", "++", "--"):
                return self.lv(c[0], node, seen)
            return frozenset([(("V", "op" + o),)])
        if k == "mcall":
            mn = e.get("mn") or short(e.get("n", ""))
            if mn in ("front", "back", "at", "top"):
                st = ("second",) if mn == "at" and "map<" in bare(c[0].get("t"))[:24] else ()
                return frozenset(p + (ELEM,) + st for p in self.obj(e, node, seen))
            if mn == "get" and e.get("cls", "").startswith("std::"):
                return self.obj(e, node, seen)
            if is_ref(e.get("rt")) or e.get("in"):
                return frozenset([(("C", e.get("n", "?")),)])
            return frozenset([(("V", e.get("n", "?")),)])
        if k == "call":
            n = short(e.get("n", ""))
            if n in ("min", "max") and len(c) >= 2:
                return self.lv(c[0], node, seen) | self.lv(c[1], node, seen)
            if n in ("move", "forward", "ref", "cref") and c:
                return self.lv(c[0], node, seen)
            if n == "get" and c:
                i = (e.get("ta") or ["0"])[0]
                return frozenset(p + ("first" if i == "0" else "second",) for p in self.lv(c[0], node, seen))
            return frozenset([(("C", e.get("n", "?")),)])
        if k == "inl":
            r = frozenset()
            for n2, x in self.rets(e):
                r |= self.lv(x, n2, seen)
            return r
        if k == "ctor" and len(c) == 1 and (e.get("copy") or bare(c[0].get("t")) == bare(e.get("t"))):
            return self.lv(c[0], node, seen)
        if k in ("ctor", "init", "new", "lambda"):
            return frozenset([(("V", k, id(e)),)])
        return frozenset([(("V", k),)])

    def obj(self, e, node, seen=()):
        """places of the object of a member call."""
        b = e["c"][0]
        if e.get("arrow") or is_ptrlike(b.get("t")) and not is_cont(b.get("t")):
            return self.pts(b, node, seen)
        return self.lv(b, node, seen)

    def _through(self, d, node, seen, ref=False):
        """what a reference / pointer / iterator variable denotes."""
        v = self.vars.get(d, {})
        if ref:
            ds = self.by_local.get(d, [])
            ds = [x for x in ds if x.kind in ("init", "range", "param")]
        else:
            ds = self.reaching(node, d)
            if not ds:
                ds = self.reaching_out(node, d)
        res = set()
        for x in ds:
            key = x.i
            if key in seen:
                continue
            s2 = seen + (key,)
            if x.kind == "param":
                res.add((("A", d),))
            elif x.kind == "range":
                rt = x.e.get("t") or ""
                res |= {p + (ELEM,) for p in self.lv(x.e, x.node, s2)}
            elif x.kind in ("init", "asgn"):
                if ref and not (is_ptrlike(x.v.get("t") if x.v else "") and False):
                    res |= self.lv(x.e, x.node, s2)
                else:
                    res |= self.pts(x.e, x.node, s2)
            elif x.kind == "upd":
                # p += k, ++p : same pointee as before
                res |= self._through(d, x.node, s2)
            elif x.kind == "byref":
                e = x.e
                if e["k"] == "call" and short(e.get("n", "")) == "advance":
                    res |= self._through(d, x.node, s2)
                else:
                    res |= self._through(d, x.node, s2)
            elif x.kind == "none":
                pass
        if v.get("lparam"):
            res.add((("LP", d),))
        return frozenset(res)

    def _pts(self, e, node, seen=()):
        if e is None:
            return frozenset()
        k = e["k"]
        c = e.get("c") or []
        t = e.get("t") or ""
        if k == "cast":
            return self.pts(c[0], node, seen)
        if k == "this":
            return frozenset([(("T",),)])
        if k == "ref":
            dk = e.get("dk")
            if dk in ("local", "param"):
                d = e["d"]
                vt = self.tname(d)
                if is_arr(vt):
                    return frozenset(p + (ELEM,) for p in self.lv(e, node, seen))
                if is_ref(vt):
                    return frozenset(p + (ELEM,) for p in self.lv(e, node, seen))
                return self._through(d, node, seen)
            if dk == "global":
                return frozenset([(("G", e.get("n", "?")), ELEM)])
            return frozenset([(("F", e.get("n", "?")),)])
        if k == "mem":
            return frozenset(p + (ELEM,) for p in self.lv(e, node, seen))
        if k == "idx" or (k == "un" and e["o"] == "*") or (k == "opcall" and e["o"] in ("[]",)) or (k == "opcall" and e["o"] == "*" and len(c) == 1):
            return frozenset(p + (ELEM,) for p in self.lv(e, node, seen))
        if k == "un":
            if e["o"] == "&":
                return self.lv(c[0], node, seen)
            return self.pts(c[0], node, seen)
        if k == "bin" and e["o"] in ("+", "-"):
            a = self.pts(c[0], node, seen)
            if is_ptrlike(c[1].get("t")) and not is_ptrlike(c[0].get("t")):
                return self.pts(c[1], node, seen)
            return a
        if k == "bin" and e["o"] == ",":
            return self.pts(c[1], node, seen)
        if k == "opcall" and e["o"] in ("+", "-", "++", "--", "+=", "-=", "=", "->"):
            return self.pts(c[1] if e["o"] == "=" and False else c[0], node, seen)
        if k == "asgn":
            return self.pts(c[1], node, seen) if e["o"] == "=" else self.pts(c[0], node, seen)
        if k == "cond":
            return self.pts(c[1], node, seen) | self.pts(c[2], node, seen)
        if k == "mcall":
            mn = e.get("mn") or short(e.get("n", ""))
            if e.get("conv"):
                return self.pts(c[0], node, seen)
            if mn in ("front", "back", "at", "top"):
                return frozenset(p + (ELEM,) for p in self.lv(e, node, seen))
            if mn in FRONTLIKE or (mn in ("insert", "erase") and is_iter(t)) or mn == "base":
                return frozenset(p + ((ELEM,) if mn != "base" else ()) for p in self.obj(e, node, seen))
            return frozenset([(("C", e.get("n", "?")),)])
        if k == "call":
            n = short(e.get("n", ""))
            if n in ("back_inserter", "front_inserter", "inserter") and c:
                return frozenset(p + (ELEM,) for p in self.lv(c[0], node, seen))
            if n in ("begin", "end") and c:
                return frozenset(p + (ELEM,) for p in self.lv(c[0], node, seen))
            if n in ("addressof", "__addressof") and c:
                return self.lv(c[0], node, seen)
            if n in STEPPERS and c and e.get("n", "").startswith("std::"):
                return self.pts(c[0], node, seen)
            if n in ("copy", "transform", "set_intersection", "set_difference", "set_union", "merge", "copy_if", "unique_copy") and c:
                # returns output iterator
                i = {"copy": 2, "transform": 2, "copy_if": 2, "unique_copy": 2}.get(n, 4)
                if n == "transform" and len(c) == 5:
                    i = 3
                return self.pts(c[i], node, seen) if i < len(c) else frozenset()
            if n in ("malloc", "calloc"):
                return frozenset([(("N", id(e)),)])
            if n in ("realloc",):
                return frozenset([(("N", id(e)),)])
            if n in ("min", "max"):
                return self.pts(c[0], node, seen) | self.pts(c[1], node, seen)
            if n == "get" and c:
                return frozenset(p + (ELEM,) for p in self.lv(e, node, seen))
            return frozenset([(("C", e.get("n", "?")),)])
        if k == "inl":
            r = frozenset()
            for n2, x in self.rets(e):
                r |= self.pts(x, n2, seen)
            return r
        if k == "new":
            return frozenset([(("N", id(e)),)])
        if k == "ctor":
            if len(c) >= 1:
                n = short(e.get("cls") or e.get("n", ""))
                if is_ptrlike(t) and (is_ptrlike(c[0].get("t")) or strip_casts(c[0])["k"] in ("un", "mcall", "call", "opcall", "inl", "ref")):
                    if "insert_iterator" in t and not is_ptrlike(c[0].get("t")):
                        return frozenset(p + (ELEM,) for p in self.lv(c[0], node, seen))
                    return self.pts(c[0], node, seen)
            return frozenset()
        if k == "lit":
            return frozenset()
        return frozenset([(("V", k),)])

    def show(self, p):
        r = p[0]
        if r[0] in ("L", "A", "LP"):
            s = self.vname(r[1])
        elif r[0] == "T":
            s = "this"
        elif r[0] in ("G", "C", "F"):
            s = short(r[1])
        elif r[0] == "N":
            s = "<new>"
        else:
            s = "<tmp>"
        for st in p[1:]:
            s += st if st == ELEM else "." + st
        return s

    # ------------------------------------------------------- effects per node
    def node_exprs(self, n):
        """expressions evaluated at a CFG node (inl nodes already hoisted)"""
        e = n.e
        if e is None:
            return []
        if n.kind == "var":
            return [e["init"]] if isinstance(e.get("init"), dict) else []
        if n.kind in ("ret", "inlret"):
            return [e["c"][0]] if e.get("c") else []
        if n.kind == "range":
            return [e["c"][1]]
        if n.kind == "cond":
            return [] if e["k"] == "rangecond" else [e]
        if n.kind == "expr":
            return [e]
        return []

    def subexprs(self, n, lambdas=True):
        """all subexpressions at a node, not descending into hoisted inl bodies"""
        out = []

        def go(e):
            if e is None:
                return
            out.append(e)
            if e["k"] == "inl":
                return
            if e["k"] == "lambda" and not lambdas:
                return
            for x in kids(e):
                go(x)
        for e in self.node_exprs(n):
            go(e)
        return out
