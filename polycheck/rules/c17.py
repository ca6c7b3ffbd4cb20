"""The Silo files describe the mesh that was written: every array goes in whole, with
its own length, name, type and centering, and the multi-block objects name exactly
the files and directories the ranks wrote.

Rules (dataflow on the writer of each dimension, helpers inlined): (a) the symbolic
contents of every array handed to the Silo library (segments appended or assigned,
with symbolic counts) have the length passed with it; the parts of a compound array
have the lengths, the order and the names of the segments stored, and each named part
is filled from the mesh member of that name; (b) coordinates k is coordinate k of
every node; counts and lists of faces and cells come whole from the member they
describe; (c) every field and tag map is written on every path, each entry under its
own name, with the centering and number of elements of its kind; (d) the names in the
group and master multi-block objects, built symbolically from the format strings, are
the paths the ranks were given, relative to the file that holds them; (e) the baton is
taken before and handed on after everything written with it, every file opened is
closed, and a rank that is not the first in its file appends to it."""
from ..effects import loop_info, poly, term, writes
from ..flow import ELEM, Flow, bare, deref_local, is_ptr
from ..ir import CFG, AnalysisError, Inliner, const, expr_str, short, strip_casts, walk
from ..seqs import Seqs, has, subst

ASSUMES = ["the Silo and PMPIO libraries follow their documentation", "the mesh satisfies its own invariants (C01-C10)"]
KINDS = ("node", "edge", "face", "cell")
CENT = {"DB_NODECENT": 110, "DB_ZONECENT": 111, "DB_FACECENT": 112, "DB_EDGECENT": 114}
ROLE_CENT = {"node": 110, "edge": 114, "face": 112, "cell": 111}
TAGNAMES = {"node": "node_tags", "edge": "edge_tags", "face": "face_tags", "cell": "cell_tags"}
DTYPE = {"int": 16, "float": 19, "double": 20, "char": 21}
# (array argument, argument with its number of entries)
LEN = {"DBPutZonelist2": [(4, 5), (9, 12), (10, 12), (11, 12)],
       "DBPutPHZonelist": [(3, 2), (5, 4), (6, 2), (8, 7), (10, 9)],
       "DBPutFacelist": [(4, 5), (8, 10), (9, 10)],
       "DBPutCompoundarray": [(2, 4), (3, 4), (5, 6)],
       "DBPutMultimesh": [(3, 2), (4, 2)], "DBPutMultivar": [(4, 2)]}
TYPED = {"DBPutCompoundarray": [(5, 7)], "DBPutUcdvar1": [(3, 7)], "DBPutUcdmesh": [(4, 9)]}
# named parts: mesh member, and what of it ("count", "sizes" of the rows, "entries" of the rows)
PARTS = {"ncellfaces": (("cells",), "sizes"), "cellfaces": (("cells",), "entries"), "facecells": (("faceCells",), "ends"),
         "nfacets": (("convexHull", "facets"), "count"), "nfacetnodes": (("convexHull", "facets"), "sizes"),
         "facetnodes": (("convexHull", "facets"), "entries")}
COUNTS = {"DBPutUcdmesh": [(5, "nodes"), (6, "cells")], "DBPutZonelist2": [(2, "cells")],
          "DBPutPHZonelist": [(2, "faces"), (7, "cells")], "DBPutFacelist": [(2, "boundaryFaces")]}


def silo_writer(prog):
    for f in prog.funcs.values():
        if f.body is not None and any(x["k"] == "call" and short(x.get("n", "")) == "DBPutUcdmesh" for x in f.nodes()):
            yield f


class W:
    def __init__(self, prog, f):
        self.prog, self.f = prog, f
        self.inl = Inliner(prog, lambda t, n: t.rel.startswith("src/") and short(t.name) not in ("strDup",) and "Tessellation" not in t.name, maxdepth=6).run(f)
        self.fl = Flow(self.inl, CFG(self.inl.body))
        self.S = Seqs(self.fl)
        self.S.elem = self.elem_at
        self.calls = []
        for n in self.fl.cfg.livenodes():
            for e in self.fl.subexprs(n):
                if e["k"] == "call":
                    nm = short(e.get("n", ""))
                    if nm.startswith(("DB", "PMPIO_")) or nm in ("snprintf", "sprintf"):
                        self.calls.append((n, e, nm.replace("DBCreateReal", "DBCreate").replace("DBOpenReal", "DBOpen")))
        ps = self.inl.params
        self.mesh = [p["d"] for p in ps if "Tessellation<" in p["t"]]
        self.maps = {}
        for p in ps:
            if "map<" in p["t"]:
                nm = p["n"].lower()
                kind = [k for k in KINDS if nm.startswith(k)]
                role = "tags" if "vector<int" in p["t"] else "fields"
                if kind:
                    self.maps[p["d"]] = (kind[0], role)
        if len(self.maps) == 8:
            pass
        else:      # names do not tell: use the documented order
            ds = [p["d"] for p in ps if "map<" in p["t"]]
            if len(ds) == 8:
                self.maps = {d: (KINDS[i // 2], ("fields", "tags")[i % 2]) for i, d in enumerate(ds)}

    def loc(self, e):
        return self.inl.loc(e)

    # -- mesh members
    def member(self, t):
        """('cells',) for a term that is a member path of the mesh"""
        path = []
        while t[0] == "m":
            path.append(t[2])
            t = t[1]
        if t[0] == "v" and t[1] in self.mesh and path:
            return tuple(reversed(path))
        return None

    def arr(self, e, n):
        """root local of an array argument"""
        rs = {p[0][1] for p in self.fl.pts(e, n) if p[0][0] == "L"}
        return rs.pop() if len(rs) == 1 and all(p[0][0] == "L" for p in self.fl.pts(e, n)) else None

    def lit(self, e, n):
        t = term(self.fl, e, n)
        return t[1] if t[0] == "k" and isinstance(t[1], str) else None

    # -- value of one element of a local array at a node
    def elem_at(self, d, k, at):
        """set of (expression, node) last stored in element k of local array d, None inside if unknown"""
        out, seen, todo = [], set(), [p for p, _ in at.pred]
        while todo:
            x = todo.pop()
            if x.i in seen:
                continue
            seen.add(x.i)
            hit = False
            for w in writes(self.fl, x):
                if w.kind == "asgn" and any(p[0] == ("L", d) and len(p) == 2 for p in w.places):
                    tgt = strip_casts(w.target)
                    ix = const(strip_casts(tgt["c"][1])) if tgt["k"] in ("idx", "opcall") and len(tgt.get("c") or []) == 2 else None
                    if ix is None:
                        ix = self.ixconst(tgt, x)
                    if ix is None:
                        return None
                    if ix == k:
                        out.append((w.rhs, x))
                        hit = True
            if x.kind == "var" and x.e.get("d") == d:
                init = x.e.get("init")
                if isinstance(init, dict) and init["k"] == "init" and len(init.get("c") or []) > k:
                    out.append((init["c"][k], x))
                else:
                    out.append(None)
                hit = True
            if not hit:
                todo += [p for p, _ in x.pred]
        return out

    def ixconst(self, tgt, n):
        if tgt["k"] in ("idx", "opcall") and len(tgt.get("c") or []) == 2:
            t = term(self.fl, tgt["c"][1], n)
            if t[0] == "k":
                return t[1]
        return None

    def dead(self, n):
        """label of the branch of a condition that is decided by constants and never taken"""
        if n.kind != "cond" or n.e["k"] == "rangecond":
            return None
        t = term(self.fl, n.e, n)
        if t[0] == "b" and t[1] in ("==", "!=") and t[2][0] == "k" and t[3][0] == "k":
            v = (t[2][1] == t[3][1]) == (t[1] == "==")
            return not v
        if t[0] == "k" and isinstance(t[1], (int, bool)):
            return not bool(t[1])
        return None

    def live(self, n):
        """reachable when conditions on constants are decided"""
        if not hasattr(self, "_live"):
            seen, todo = set(), [self.fl.cfg.entry]
            while todo:
                x = todo.pop()
                if x.i not in seen:
                    seen.add(x.i)
                    d = self.dead(x)
                    todo += [s for s, l in x.succ if d is None or l != d]
            self._live = seen
        return n.i in self._live

    # -- strings
    def buf(self, d, at, want, depth):
        """alternatives of the text last put into buffer / string d before `at`"""
        preds = lambda y: [p for p, l in y.pred if self.live(p) and (self.dead(p) is None or self.dead(p) != l)]
        out, seen, todo = set(), set(), preds(at)
        while todo:
            x = todo.pop()
            if x.i in seen:
                continue
            seen.add(x.i)
            hit = False
            for e in self.fl.node_exprs(x):
                for y in walk(e):
                    if y["k"] == "call" and short(y.get("n", "")) in ("snprintf", "sprintf") and y.get("c") and self.isbuf(y["c"][0], d, x):
                        a = y["c"][2:] if short(y["n"]) == "snprintf" else y["c"][1:]
                        r = self.fmt(a, x, depth)
                        if r is None:
                            return None
                        g = self.guard(x)
                        out |= {(gs | g, t) for gs, t in r}
                        hit = True
                    elif y["k"] == "call" and short(y.get("n", "")) in ("strcpy", "strcat", "memcpy", "strncpy") and self.isbuf(y["c"][0], d, x):
                        return None
            if not hit:
                for w in writes(self.fl, x):
                    if ("L", d) in {p[0] for p in w.places if len(p) == 1} and w.kind == "asgn":
                        r = self.sval(w.rhs, x, depth + 1)
                        if r is None:
                            return None
                        g = self.guard(x)
                        out |= {(gs | g, t) for gs, t in r}
                        hit = True
                    elif any(p[0] == ("L", d) for p in w.places) and w.kind.startswith("mut:"):
                        return None
            if x.kind == "var" and x.e.get("d") == d:
                init = x.e.get("init")
                if isinstance(init, dict) and not (init["k"] == "ctor" and not init.get("c")):
                    r = self.sval(init, x, depth + 1)
                    if r is None:
                        return None
                    out |= r
                hit = True
            if not hit:
                todo += preds(x)
        return out

    def isbuf(self, e, d, n):
        return any(p[0] == ("L", d) for p in self.fl.pts(e, n)) or deref_local(strip_casts(e)) == d

    def guard(self, n):
        """conditions other than loop conditions directly deciding n"""
        out = set()
        for p, lab in n.pred:
            if p.kind == "cond" and p.e["k"] != "rangecond" and len(n.pred) == 1 and self.dead(p) is None:
                if p.i in {i for L in self.S.loops(n) if L.head for i in (L.head.i,)}:
                    continue
                t = subst(term(self.fl, p.e, p), lambda u: ("v", u[1]) if isinstance(u, tuple) and len(u) == 3 and u[0] == "v" else None)
                if t[0] == "b" and t[1] in ("<", "<="):
                    if any(x[0] == "v" for x in t[2:]) and not any(L.var in (t[2][1], t[3][1]) for L in self.S.loops(n) if len(t[2]) > 1):
                        out.add((t, lab))
        return frozenset(out)

    def fmt(self, a, n, depth):
        if not a:
            return None
        f = self.lit(a[0], n)
        if f is None:
            return None
        alts = [(frozenset(), ())]
        i, k, s = 0, 1, ""
        while i < len(f):
            if f[i] != "%":
                s += f[i]
                i += 1
                continue
            j = i + 1
            while j < len(f) and f[j] in "0123456789.-+ #lhzj":
                j += 1
            c = f[j]
            spec = f[i + 1:j].replace("l", "").replace("z", "").replace("h", "").replace("j", "")
            if c == "%":
                s += "%"
            else:
                if k >= len(a):
                    return None
                if s:
                    alts = [(g, t + (("s", s),)) for g, t in alts]
                    s = ""
                if c == "s":
                    r = self.sval(a[k], n, depth + 1)
                    if r is None:
                        return None
                    alts = [(g | g2, t + t2) for g, t in alts for g2, t2 in r]
                elif c in "diu":
                    alts = [(g, t + (("i", self.icls(a[k], n), spec),)) for g, t in alts]
                else:
                    return None
                k += 1
            i = j + 1
        if s:
            alts = [(g, t + (("s", s),)) for g, t in alts]
        return {(g, merge(t)) for g, t in alts}

    def icls(self, e, n):
        t = term(self.fl, e, n)
        if t[0] == "C":
            return {"PMPIO_GroupRank": "group", "PMPIO_RankInGroup": "rank in group"}.get(short(t[1]), t)
        if t[0] == "v":
            for L in self.S.loops(n):
                if L.var == t[1]:
                    b = L.bound
                    if b is not None and b[0] == "v" and b[1] == self.nfiles and L.start == ("k", 0):
                        return "group"
                    return "rank in group" if L.start == ("k", 0) else ("from", L.start)
            return ("v", t[1])
        return t

    def sval(self, e, n, depth=0):
        """alternatives {(guards, tokens)} of a string expression"""
        if depth > 12:
            return None
        x = strip_casts(e)
        k = x["k"]
        c = x.get("c") or []
        one = lambda *t: {(frozenset(), merge(t))}
        if k == "lit" and isinstance(x.get("s"), str):
            return one(("s", x["s"]))
        if k == "mcall" and (x.get("mn") or short(x.get("n", ""))) in ("c_str", "data") and c:
            return self.sval(c[0], n, depth + 1)
        if k == "ctor" and c and "basic_string" in (x.get("t") or "") or k == "ctor" and len(c) == 1:
            return self.sval(c[0], n, depth + 1)
        if k == "call" and short(x.get("n", "")) in ("strDup", "strdup") and c:
            return self.sval(c[0], n, depth + 1)
        if k == "call" and short(x.get("n", "")) == "to_string" and c:
            return one(("i", self.icls(c[0], n), ""))
        if k == "opcall" and x["o"] == "+" and len(c) == 2:
            a, b = self.sval(c[0], n, depth + 1), self.sval(c[1], n, depth + 1)
            if a is None or b is None:
                return None
            return {(g | h, merge(s + t)) for g, s in a for h, t in b}
        if k == "cond":
            a, b = self.sval(c[1], n, depth + 1), self.sval(c[2], n, depth + 1)
            return None if a is None or b is None else a | b
        if k == "ref" and x.get("dk") in ("local", "param"):
            d = x["d"]
            v = self.fl.vars.get(d) or {}
            t = self.fl.tname(d)
            if v.get("inlparam") or "&" in t:
                ds = [y for y in self.fl.by_local.get(d, []) if y.kind == "init"]
                if len(ds) == 1 and ds[0].e is not None:
                    return self.sval(ds[0].e, ds[0].node, depth + 1)
            if "basic_string" in t and not v.get("param"):
                ws = [w for m in self.fl.cfg.livenodes() for w in writes(self.fl, m) if any(p == ("L", d)[:1] or p[0] == ("L", d) for p in w.places)]
                muts = [w for w in ws if w.kind != "asgn"]
                if muts or len(ws) and self.argdep(d):
                    return one(("str", d))
            if not [y for y in self.fl.cfg.livenodes() if y.kind == "var" and y.e.get("d") == d]:
                return one(("str", d))
            if is_ptr(t):
                ds = self.fl.reaching(n, d)
                out = set()
                for y in ds:
                    if y.kind not in ("init", "asgn") or y.e is None:
                        return None
                    r = self.sval(y.e, y.node, depth + 1)
                    if r is None:
                        return None
                    out |= r
                return out
            return self.buf(d, n, None, depth + 1)
        t = term(self.fl, x, n)
        return one(("str", self.S.rn(t, self.S.loops(n))))

    def argdep(self, d):
        """a string that starts as one of the arguments and may be replaced by a default"""
        for n in self.fl.cfg.livenodes():
            if n.kind == "var" and n.e.get("d") == d and isinstance(n.e.get("init"), dict):
                return any(y["k"] == "ref" and y.get("dk") == "param" or y["k"] == "ref" and (self.fl.vars.get(y.get("d")) or {}).get("param") for y in walk(n.e["init"]))
        return False


def merge(t):
    out = []
    for x in t:
        if x[0] == "s" and out and out[-1][0] == "s":
            out[-1] = ("s", out[-1][1] + x[1])
        elif x != ("s", ""):
            out.append(x)
    return tuple(out)


def show(t, fl):
    return "".join(x[1] if x[0] == "s" else "<%s>" % (x[1] if isinstance(x[1], str) else fl.vname(x[1]) if x[0] == "str" and isinstance(x[1], int) else
                   fl.vname(x[1][1]) if isinstance(x[1], tuple) and x[1][0] == "v" else "name") for x in t)


def run(prog, res, tier):
    ws = [W(prog, f) for f in silo_writer(prog)]
    for w in ws:
        res.count("writers")
        ini = [(n, e) for n, e, nm in w.calls if nm == "PMPIO_Init"]
        w.nfiles = deref_local(strip_casts(ini[0][1]["c"][0])) if ini else None
        arrays(w, res)
        compound(w, res)
        meshdata(w, res)
        maps(w, res)
        names(w, res)
        typestate(w, res)
        directories(w, res)
        metadata(w, res)
        callbacks(prog, w, res)
    res.floor("writers", 1)
    res.floor("arrays with a length", 5)


def P(w, res, rule, good, n, e, what, key, msg):
    res.check(good, rule, w.loc(e), "%s: %s" % (w.f.rel.split("/")[-1], what), "%s|%s" % (w.f.rel.split("/")[-1], key), msg)


def arrays(w, res):
    """(a) lengths"""
    for n, e, nm in w.calls:
        c = e["c"]
        for ai, ci in LEN.get(nm, ()):
            if ai >= len(c) or strip_casts(c[ai])["k"] == "lit":
                continue
            d = w.arr(c[ai], n)
            cnt = w.S.lens(c[ci], n)
            what = "%s: %s / %s" % (nm, expr_str(c[ai]), expr_str(c[ci]))
            if d is None:
                res.notes.append("%s undecided at %s" % (what, w.loc(e)))
                continue
            v = w.fl.vars.get(d) or {}
            if "[" in (v.get("t") or ""):
                import re
                m = re.search(r"\[(\d+)\]", v["t"])
                size = {(): int(m.group(1))} if m else None
                good = size is not None and set(cnt) <= {()} and cnt.get((), 0) <= size[()]
                if set(cnt) <= {()}:
                    res.count("arrays with a length")
                    P(w, res, "array-length", good, n, e, what, "%s|%d" % (nm, ai), "%s is passed %s but its array %s holds %s entries" % (nm, expr_str(c[ci]), expr_str(c[ai]), size and size[()]))
                continue
            tot = w.S.total(d, n)
            t = term(w.fl, c[ci], n)
            if tot is None:
                if t[0] == "M" and t[1] == "size" and t[2] == ("v", d):
                    tot = cnt
                elif (d, n.i) in w.S.partial and w.S.partial[(d, n.i)][1] == cnt:
                    res.count("arrays with a length")
                    P(w, res, "array-length", False, n, e, what, "%s|%s" % (nm, ai), "%s is told that %s has %s entries, but %s" % (nm, expr_str(c[ai]), expr_str(c[ci]), "an entry is left out under a condition at %s" % w.loc(w.S.partial[(d, n.i)][0].e)))
                    continue
                else:
                    res.notes.append("%s: length undecided at %s" % (what, w.loc(e)))
                    continue
            res.count("arrays with a length")
            if tot == cnt:
                P(w, res, "array-length", True, n, e, what, "", "")
            elif comparable(w, tot, cnt):
                P(w, res, "array-length", False, n, e, what, "%s|%s" % (nm, ai), "%s is told that %s has %s entries, but that is not how many it was filled with" % (nm, expr_str(c[ai]), expr_str(c[ci])))
            else:
                res.notes.append("%s: length undecided at %s" % (what, w.loc(e)))
        for ai, di in TYPED.get(nm, ()):
            dt = const(c[di])
            t = pointee(w, c[ai], n)
            if t in DTYPE and dt is not None:
                res.count("data types")
                P(w, res, "data-type", DTYPE[t] == dt, n, e, "%s: %s is %s" % (nm, expr_str(c[ai]), t), "%s|type|%s" % (nm, expr_str(c[ai])),
                  "%s is told the wrong data type for %s (%s)" % (nm, expr_str(c[ai]), t))


def pointee(w, e, n):
    x = e
    while x["k"] == "cast":
        x = x["c"][0]
    t = (x.get("t") or "").replace("const ", "").replace("*const", "*").strip()
    base = t.rstrip("*& ").strip()
    if "[" in base:
        base = base.split("[")[0].rstrip("*& ").strip()
    return base


def comparable(w, a, b):
    """both are built from sizes of the mesh and of maps only: different polynomials are different numbers"""
    def ok(t):
        if t[0] == "M" and t[1] == "size":
            return True
        if t[0] == "S":
            return True
        if t[0] == "b" and t[1] == "/" and t[3][0] == "k":
            return ok(t[2])
        if t[0] in ("?", "v"):
            return False
        if t[0] == "b":
            return all(x[0] == "k" or ok(x) for x in t[2:])
        return False
    if all(ok(x) for p in (a, b) for m in p for x in m):
        return True
    # a number of processes or files against a share of it
    for p, q in ((a, b), (b, a)):
        if list(p.values()) == [1] and len(list(p)[0]) == 1 and list(p)[0][0][0] == "v":
            v = list(p)[0][0]
            at = [x for m in q for x in m]
            if at and all(x[0] in ("b", "?", "v") for x in at) and (any(x[:2] == ("b", "/") for x in at) or [x[0] for x in at] == ["v"] and param_of(w, at[0]) != param_of(w, v)):
                return True
    return False


def param_of(w, v):
    """what a scalar is: a parameter, or the library call that filled it"""
    ps = {p["d"] for p in w.inl.params}
    if v[1] in ps:
        return ("param", v[1])
    for n in w.fl.cfg.livenodes():
        for e in w.fl.subexprs(n):
            if e["k"] == "call" and short(e.get("n", "")).startswith("MPI_Comm_") and any(("L", v[1]) == p[0] for c in e["c"] for p in w.fl.pts(c, n)):
                return ("mpi", short(e["n"]))
    return ("local", v[1])


def segcheck(w, segs):
    return segs is not None and not any(getattr(s, "short", False) for s in segs)


def kindof(w, s):
    """(member, what) of a segment: what of the mesh it holds"""
    out = []
    for e, n, Ls in s.values:
        if isinstance(e, tuple):
            if e[0] != "all":
                return ("?", ("part",))
            t = w.S.rn(e[1], w.S.loops(n))
            if t[0] == "row" and w.member(t[1]):
                out.append((w.member(t[1]), "entries"))
            elif w.member(t):
                out.append((w.member(t), "flat"))
            else:
                return None
            continue
        t = w.S.rn(term(w.fl, e, n), w.S.loops(n))
        if t[0] == "M" and t[1] == "size" and t[2][0] == "x" and w.member(t[2][1]) and t[2][2][0] == "v" and any(t[2][2][1] == L.var for L in w.S.loops(n)):
            out.append((w.member(t[2][1]), "sizes of some rows"))
        elif t[0] == "M" and t[1] == "size" and t[2][0] == "row" and w.member(t[2][1]):
            out.append((w.member(t[2][1]), "sizes"))
        elif t[0] == "M" and t[1] == "size" and w.member(t[2]):
            out.append((w.member(t[2]), "count"))
        elif t[0] == "row" and t[1][0] == "row" and w.member(t[1][1]):
            out.append((w.member(t[1][1]), "entries"))
        elif t[0] == "x" and t[1][0] == "row" and w.member(t[1][1]) and t[2] == ("k", 0):
            out.append((w.member(t[1][1]), "first"))
        elif t[0] == "x" and t[1][0] == "row" and w.member(t[1][1]) and t[2] == ("k", 1):
            out.append((w.member(t[1][1]), "second"))
        elif t[0] == "M" and t[1] == "back" and t[2][0] == "row" and w.member(t[2][1]):
            out.append((w.member(t[2][1]), "last"))
        elif t[0] == "row" and t[1][0] == "m" and w.member(t[1]):
            out.append((w.member(t[1]), "flat"))
        else:
            return None
    if len(out) == 2 and out[0][0] == out[1][0] and out[0][1] == "first" and out[1][1] == "last":
        return (out[0][0], "ends")
    return out[0] if len(out) == 1 else ("?", tuple(out)) if out else None


def compound(w, res):
    """(a) the parts of compound arrays"""
    for n, e, nm in w.calls:
        if nm != "DBPutCompoundarray":
            continue
        c = e["c"]
        k = const(c[4])
        segs = None
        d = w.arr(c[5], n)
        if d is not None:
            segs = w.S.segs(d, n)
        nd, ld = w.arr(c[2], n), w.arr(c[3], n)
        if k is None:
            vecparts(w, res, n, e, segs, nd, ld)
            continue
        if nd is None or ld is None:
            res.notes.append("compound array undecided at %s" % w.loc(e))
            continue
        names, lens = [], []
        for i in range(int(k)):
            a, b = w.elem_at(nd, i, n), w.elem_at(ld, i, n)
            names.append(w.sval(a[0][0], a[0][1]) if a and len(a) == 1 and a[0] else None)
            if not a or a[0] is None:
                P(w, res, "compound-part", False, n, e, "part %d" % i, "%s|name %d" % (expr_str(c[1]), i), "part %d of %s has no name" % (i, expr_str(c[1])))
            lens.append(w.S.lens(b[0][0], b[0][1]) if b and len(b) == 1 and b[0] else None)
            if b is not None and (not b or b[0] is None):
                P(w, res, "compound-part", False, n, e, "part %d" % i, "%s|length %d" % (expr_str(c[1]), i), "part %d of %s has no length" % (i, expr_str(c[1])))
        part = w.S.partial.get((d, n.i))
        if segs is None and part and all(x is not None for x in lens) and any(m in x for m in part[1] for x in lens):
            P(w, res, "compound-part", False, n, e, "%s: lengths" % expr_str(c[1]), "%s|partial" % expr_str(c[1]), "the length given for a part of %s counts an entry for every row, but at %s one is left out under a condition" % (expr_str(c[1]), w.loc(part[0].e)))
            continue
        if segs is None or any(x is None for x in lens) or any(x is None or len(x) != 1 for x in names):
            res.notes.append("compound array undecided at %s" % w.loc(e))
            continue
        txt = ["".join(t[1] for t in list(x)[0][1] if t[0] == "s") for x in names]
        res.count("compound arrays")
        pos = 0
        for i in range(int(k)):
            want, got, ks = lens[i], {}, []
            while pos < len(segs) and got != want and (len(ks) == 0 or True):
                for m, co in segs[pos].count.items():
                    got[m] = got.get(m, 0) + co
                got = {m: co for m, co in got.items() if co}
                ks.append(segs[pos])
                pos += 1
            good = got == want
            if not good and not all(comparable(w, g, want) for g in [got]):
                res.notes.append("compound array part %s undecided at %s" % (txt[i], w.loc(e)))
                break
            P(w, res, "compound-part", good, n, e, "%s.%s has the length of the data stored" % (expr_str(c[1]), txt[i]), "%s|%s|length" % (expr_str(c[1]), txt[i]),
              "the length given for part '%s' of %s is not the number of values stored for it" % (txt[i], expr_str(c[1])))
            if not good:
                break
            spec = PARTS.get(txt[i])
            if spec and len(ks) == 1:
                kd = kindof(w, ks[0])
                if kd is None:
                    if getattr(ks[0], "sized", False) or not ks[0].values:
                        P(w, res, "compound-part", False, n, e, "%s.%s" % (expr_str(c[1]), txt[i]), "%s|%s|unset" % (expr_str(c[1]), txt[i]), "part '%s' of %s is never filled" % (txt[i], expr_str(c[1])))
                    else:
                        res.notes.append("part %s: contents undecided at %s" % (txt[i], w.loc(e)))
                    continue
                P(w, res, "compound-part", kd == spec, n, e, "%s.%s holds the %s of %s" % (expr_str(c[1]), txt[i], spec[1], ".".join(spec[0])), "%s|%s|content" % (expr_str(c[1]), txt[i]),
                  "part '%s' of %s should hold the %s of mesh.%s but holds %s" % (txt[i], expr_str(c[1]), spec[1], ".".join(spec[0]), "the %s of mesh.%s" % (kd[1], ".".join(kd[0])) if kd[0] != "?" else "something else"))
        else:
            P(w, res, "compound-part", pos == len(segs), n, e, "%s: the parts cover the data" % expr_str(c[1]), "%s|rest" % expr_str(c[1]), "the parts of %s do not cover all values stored" % expr_str(c[1]))


def vecparts(w, res, n, e, segs, nd, ld):
    """names and lengths collected in vectors: one part per entry of a map"""
    ns = w.S.segs(nd, n) if nd is not None else None
    ls = w.S.segs(ld, n) if ld is not None else None
    if not segs or not ns or not ls or len(segs) != 1 or len(ns) != 1 or len(ls) != 1 or not all(len(x[0].values) == 1 for x in (segs, ns, ls)):
        res.notes.append("compound array undecided at %s" % w.loc(e))
        return
    nv, lv, vv = ns[0].values[0], ls[0].values[0], segs[0].values[0]
    if isinstance(lv[0], tuple) or isinstance(nv[0], tuple):
        res.notes.append("compound array undecided at %s" % w.loc(e))
        return
    lt = w.S.rn(term(w.fl, lv[0], lv[1]), w.S.loops(lv[1]))
    rows = [m for m in (("row", ("v", d)) for d in w.fl.vars) if has(lt, m)] or [r for r in [x for x in flat(lt)] if r[:1] == ("row",)]
    res.count("compound arrays")
    # sum over the map of the lengths == number of values
    if rows:
        X = rows[0][1]
        want = {(("S", X, (lt,)),): 1}
        P(w, res, "compound-part", segs[0].count == want, n, e, "tag data: lengths add up to the values", "tags|length", "the lengths of the parts of the tag array are not the numbers of values stored")
    else:
        P(w, res, "compound-part", False, n, e, "tag data: lengths add up to the values", "tags|length", "the length given for each tag is the same for all of them (%s)" % expr_str(lv[0]))
    if rows:
        src = lt[2] if lt[0] == "M" and lt[1] == "size" else None
        if src is not None:
            t = vv[0][1] if isinstance(vv[0], tuple) else term(w.fl, vv[0], vv[1])
            t = w.S.rn(t, w.S.loops(vv[1]))
            good = t in (src, ("row", src)) or has(t, src)
            P(w, res, "compound-part", good, n, e, "tag data: the values of each tag", "tags|content", "the values stored are not those of the tag whose length is given")
    sv = w.sval(nv[0], nv[1])
    if sv is not None and len(sv) == 1:
        tk = list(sv)[0][1]
        good = len(tk) == 1 and tk[0][0] == "str" and isinstance(tk[0][1], tuple) and tk[0][1][0] == "m" and tk[0][1][2] == "first" and tk[0][1][1][0] == "row"
        P(w, res, "compound-part", good, n, e, "tag data: each part has the name of its tag", "tags|name", "the parts of the tag array are not named after their tags (%s)" % expr_str(nv[0]))


def flat(t):
    if isinstance(t, tuple):
        if t[:1] == ("row",):
            yield t
        for x in t:
            yield from flat(x)


def meshdata(w, res):
    """(b) coordinates, counts, lists"""
    D = None
    for n, e, nm in w.calls:
        c = e["c"]
        if nm == "DBPutUcdmesh":
            D = int(const(c[2]))
    for n, e, nm in w.calls:
        c = e["c"]
        for ai, m in COUNTS.get(nm, ()):
            p = w.S.lens(c[ai], n)
            t = ("M", "size", None)
            good = None
            if len(p) == 1:
                (mono, co), = p.items()
                a = mono[0] if len(mono) == 1 else None
                if a is not None and co == 1:
                    if a[0] == "b" and a[1] == "/" and a[3][0] == "k":
                        mem = w.member(a[2][2]) if a[2][0] == "M" and a[2][1] == "size" else None
                        good = mem == (m,) and m == "nodes" and a[3][1] == D if mem else None
                    elif a[0] == "M" and a[1] == "size":
                        mem = w.member(a[2])
                        good = (mem == (m,) and m != "nodes") if mem else None
            if good is None:
                res.notes.append("%s: count of %s undecided at %s" % (nm, m, w.loc(e)))
                continue
            res.count("element counts")
            P(w, res, "element-count", good, n, e, "%s: number of %s" % (nm, m), "%s|%s" % (nm, m), "%s is not given the number of %s (%s)" % (nm, m, expr_str(c[ai])))
        if nm == "DBPutUcdmesh":
            coords(w, res, n, e, D)
        if nm == "DBPutPHZonelist":
            for ci, li, m in ((3, 5, "faces"), (8, 10, "cells")):
                for ai, what in ((ci, "sizes"), (li, "entries")):
                    d = w.arr(c[ai], n)
                    s = w.S.segs(d, n) if d is not None else None
                    kd = kindof(w, s[0]) if s and len(s) == 1 else None
                    if kd is None:
                        res.notes.append("%s: %s undecided at %s" % (nm, expr_str(c[ai]), w.loc(e)))
                        continue
                    res.count("connectivity lists")
                    P(w, res, "connectivity", kd == ((m,), what), n, e, "%s: %s of %s" % (nm, what, m), "%s|%s|%s" % (nm, m, what), "%s should get the %s of mesh.%s in %s" % (nm, what, m, expr_str(c[ai])))
            d = w.arr(c[6], n)
            if d is not None:
                ext(w, res, n, e, d)
        if nm == "DBPutZonelist2":
            d = w.arr(c[4], n)
            s = w.S.segs(d, n) if d is not None else None
            if s and len(s) == 1 and len(s[0].values) == 2:
                (a, na, _), (b, nb, _) = s[0].values
                if not isinstance(a, tuple) and isinstance(b, tuple):
                    res.count("connectivity lists")
                    P(w, res, "connectivity", term(w.fl, a, na) == ("M", "size", b[1]), n, e, "%s: each cell is its number of nodes, then its nodes" % nm, "%s|nodelist" % nm,
                      "the node list does not store the number of nodes of each cell before its nodes")
                    if b[1][0] == "v":
                        traversal(w, res, n, e, b[1][1], nb)
        if nm == "DBPutFacelist":
            d = w.arr(c[4], n)
            s = w.S.segs(d, n) if d is not None else None
            if s and len(s) == 1 and getattr(s[0], "filled", None) is not None:
                got = [w.S.rn(term(w.fl, x, m), w.S.loops(m)) for x, m, _ in s[0].values]
                want = [("x", ("x", None, ("row", None)), ("k", i)) for i in range(len(got))]
                good = s[0].filled
                for i, t in enumerate(got):
                    ok = t[0] == "x" and t[1][0] == "x" and w.member(t[1][1]) == ("faces",) and t[1][2][0] == "row" and w.member(t[1][2][1]) == ("boundaryFaces",) and t[2] == ("k", i)
                    good = good and ok
                res.count("connectivity lists")
                P(w, res, "connectivity", good, n, e, "%s: the nodes of each boundary face" % nm, "%s|nodelist" % nm, "the boundary face list does not hold node 0 and node 1 of every boundary face")


def traversal(w, res, n, e, d, at):
    """the nodes of one cell: the first node of each of its faces in the direction of the cell"""
    fl = w.fl
    got = []
    for m in fl.cfg.livenodes():
        for x in writes(fl, m):
            if x.kind in ("mut:push_back", "mut:emplace_back") and any(p == (("L", d),) for p in x.places) and m.loops and not any(m.loops[-1] is s for s in at.loops):
                v = x.rhs if x.rhs is not None else x.e["c"][-1]
                got.append((term(fl, v, m), m, x.e))
    if not got:
        return
    for t, m, x in got:
        if t[0] != "?" or len(t) != 4:
            sides = [(t, None)]
        else:
            sides = [(t[2], (t[1], True)), (t[3], (t[1], False))]
        for s, cond in sides:
            if cond is None:
                g = [(term(fl, p.e, p), lab) for p, lab in m.pred if p.kind == "cond" and p.e["k"] != "rangecond"]
                cond = g[0] if len(m.pred) == 1 and g else None
            if s[0] != "x" or s[1][0] != "x" or w.member(s[1][1]) != ("faces",) or s[2][0] != "k" or cond is None:
                continue
            inv = s[1][2][0] == "u" and s[1][2][1] == "~"
            k = s[1][2][2] if inv else s[1][2]
            c, lab = cond
            if c[0] == "b" and c[3] == ("k", 0) and c[2] == k and c[1] in (">=", "<"):
                pos = (c[1] == ">=") == lab
            elif c[0] == "b" and c[2] == ("k", 0) and c[3] == k and c[1] in ("<=", ">"):
                pos = (c[1] == "<=") == lab
            else:
                continue
            good = pos != inv and s[2][1] == (0 if pos else 1)
            res.count("connectivity lists")
            res.check(good, "connectivity", w.loc(x), "%s: %s faces start at node %d" % (w.f.rel.split("/")[-1], "positive" if pos else "reversed", 0 if pos else 1),
                      "%s|traverse|%s" % (w.f.rel.split("/")[-1], pos), "the node taken from a %s face is not the one the cell reaches first" % ("positively oriented" if pos else "reversed"))


def directories(w, res):
    """(e) a directory is there before any rank needs it"""
    mk = [(n, e) for n in w.fl.cfg.livenodes() for e in w.fl.subexprs(n) if e["k"] == "call" and short(e.get("n", "")) == "mkdir"]
    bar = {n.i for n in w.fl.cfg.livenodes() for e in w.fl.subexprs(n) if e["k"] == "call" and short(e.get("n", "")) in ("MPI_Barrier", "MPI_Allreduce", "MPI_Bcast")}
    need = {n.i: "its file is opened" for n, e, nm in w.calls if nm == "PMPIO_WaitForBaton"}
    for n, e in mk:
        need.setdefault(n.i, "a directory below it is made")
    for n, e in mk:
        seen, todo, hit = set(), [s for s, _ in n.succ], None
        while todo:
            x = todo.pop()
            if x.i in seen or x.i in bar:
                continue
            seen.add(x.i)
            if x.i in need and x.i != n.i:
                hit = need[x.i]
                break
            todo += [s for s, _ in x.succ]
        res.count("directories made")
        P(w, res, "directory", hit is None, n, e, "%s made before other ranks use it" % expr_str(e["c"][0]), "mkdir|%s" % expr_str(e["c"][0]), "no rank waits for this directory to be made before %s" % hit)


def metadata(w, res):
    """(c) cycle and time"""
    fl = w.fl
    ps = {}
    for p in w.inl.params:
        if p["n"] == "cycle":
            ps["cycle"] = p["d"]
        elif p["n"] == "time":
            ps["time"] = p["d"]
    if len(ps) != 2:
        return
    for n, e, nm in w.calls:
        if nm in ("DBPutUcdmesh", "DBPutMultimesh"):
            o = e["c"][-1]
            d = deref_local(strip_casts(o))
            if d is None:
                continue
            made = {y.node.i for y in fl.reaching(n, d)}
            for what, opts in (("cycle", (263,)), ("time", (275, 280))):
                hit = []
                for m, x, k in w.calls:
                    if k == "DBAddOption" and deref_local(strip_casts(x["c"][0])) == d and const(x["c"][1]) in opts and w.S.before(m, n):
                        v = strip_casts(x["c"][2])
                        a = deref_local(strip_casts(v["c"][0])) if v["k"] == "un" and v["o"] == "&" else None
                        src = a == ps[what]
                        if a is not None and not src:
                            vs = [term(fl, y.e, y.node) for y in fl.reaching(m, a) if y.e is not None and y.kind in ("init", "asgn")]
                            src = bool(vs) and all(t[:2] == ("v", ps[what]) for t in vs)
                        hit.append((src, x, m))
                res.count("metadata")
                good = bool(hit) and all(h[0] for h in hit)
                P(w, res, "metadata", good, n, e, "%s: %s" % (nm, what), "%s|%s" % (nm, what), "%s is written without the %s given (%s)" % (nm, what, expr_str(hit[0][1]) if hit else "no such option"))


def ext(w, res, n, e, d):
    """exterior face flags: set for every boundary face"""
    good, why = False, "no flag is set"
    for m in w.fl.cfg.livenodes():
        for x in writes(w.fl, m):
            if x.kind == "asgn" and any(p[0] == ("L", d) and len(p) == 2 for p in x.places) and w.S.before(m, n):
                tgt = strip_casts(x.target)
                if len(tgt.get("c") or []) != 2:
                    return
                Ls = w.S.loops(m)
                t = w.S.rn(term(w.fl, tgt["c"][1], m), Ls)
                v = const(x.rhs)
                if t[0] == "row" and w.member(t[1]) == ("boundaryFaces",) and len(Ls) == 1 and Ls[0].full and w.S.each(m, Ls[0]) and v not in (0, None):
                    good = True
                else:
                    why = "%s" % expr_str(x.e)
    res.count("connectivity lists")
    P(w, res, "connectivity", good, n, e, "every boundary face is flagged as exterior", "extface", "the exterior flags are not set for exactly the boundary faces (%s)" % why)


def coords(w, res, n, e, D):
    c = e["c"]
    cd, nd = w.arr(c[4], n), w.arr(c[3], n)
    if cd is None:
        return
    cnt = w.S.lens(c[5], n)
    cn = None
    for k in range(D):
        a = w.elem_at(cd, k, n)
        if a is None or len(a) != 1 or a[0] is None:
            if a is not None:
                P(w, res, "coordinates", False, n, e, "coordinate %d" % k, "coord|%d" % k, "coordinate array %d is not set" % k)
            continue
        d = w.arr(a[0][0], a[0][1])
        s = w.S.segs(d, n) if d is not None else None
        tot = w.S.total(d, n) if d is not None else None
        if tot is not None and tot != cnt and comparable(w, tot, cnt):
            P(w, res, "coordinates", False, n, e, "coordinate %d of every node" % k, "coord|%d" % k, "coordinate array %d does not have one entry per node" % k)
            continue
        if not s or len(s) != 1 or len(s[0].values) != 1:
            res.notes.append("coordinate array %d undecided at %s" % (k, w.loc(e)))
            continue
        x, m, _ = s[0].values[0]
        if isinstance(x, tuple):
            continue
        t = elem(term(w.fl, x, m))
        res.count("coordinate arrays")
        Ls = w.S.loops(m)
        good = False
        if t[0] == "x" and w.member(t[1]) == ("nodes",) and Ls:
            p = poly(t[2])
            lv = [q for q in p if len(q) == 1 and q[0][0] == "v" and q[0][1] == Ls[-1].var]
            good = len(lv) == 1 and p[lv[0]] == D and p.get((), 0) == k and len(p) == (2 if k else 1)
        P(w, res, "coordinates", good and s[0].count == cnt, n, e, "coordinate %d of every node" % k, "coord|%d" % k, "coordinate array %d does not hold coordinate %d of every node (%s)" % (k, k, expr_str(x)))
    if nd is not None:
        for k in range(D):
            a = w.elem_at(nd, k, n)
            if a and len(a) == 1 and a[0]:
                s = w.lit(a[0][0], a[0][1])
                if s:
                    P(w, res, "coordinates", s[:1].lower() == "xyz"[k], n, e, "name of coordinate %d" % k, "coordname|%d" % k, "coordinate %d is named '%s'" % (k, s))


def elem(t):
    """p[k] with p = &a[i] is a[i + k]"""
    if t[0] == "x" and t[1][:2] == ("u", "&") and t[1][2][0] == "x":
        return ("x", t[1][2][1], ("b", "+", t[1][2][2], t[2]))
    return t


def maps(w, res):
    """(c) tags and fields"""
    exitn = w.fl.cfg.exit
    seen = {}
    for n, e, nm in w.calls:
        c = e["c"]
        if nm == "DBPutUcdvar1":
            Ls = w.S.loops(n)
            v = w.S.rn(term(w.fl, c[3], n), Ls)
            if not (v[0] == "m" and v[1][0] == "row" and v[1][1][0] == "v"):
                res.notes.append("field value undecided at %s" % w.loc(e))
                continue
            d = v[1][1][1]
            if d not in w.maps:
                continue
            kind, role = w.maps[d]
            key = "%s|%s" % (role, kind)
            seen.setdefault(d, []).append((n, e))
            res.count("fields")
            P(w, res, "field", v[2] == "second", n, e, "%s fields: values" % kind, key + "|value", "the values written for %s fields are not the field's" % kind)
            nt = w.sval(c[1], n)
            if nt is not None:
                good = len(nt) == 1 and list(nt)[0][1] == (("str", ("m", v[1], "first")),)
                P(w, res, "field", good, n, e, "%s fields: name" % kind, key + "|name", "a %s field is not written under its own name" % kind)
            ct = const(c[8])
            if ct is None:
                t = term(w.fl, c[8], n)
                ct = t[1] if t[0] == "k" else None
            if ct is not None:
                P(w, res, "field", ct == ROLE_CENT[kind], n, e, "%s fields: centering" % kind, key + "|centering", "%s fields are written with the centering of something else" % kind)
            p = w.S.lens(c[4], n)
            D = [int(const(x["c"][2])) for _, x, m in w.calls if m == "DBPutUcdmesh"]
            want = {"node": "nodes", "face": "faces", "cell": "cells", "edge": "faces" if D == [2] else None}[kind]
            mem = None
            if len(p) == 1 and list(p.values()) == [1]:
                a = list(p)[0][0]
                if a[0] == "b" and a[1] == "/" and a[2][0] == "M" and a[3] == ("k", D[0] if D else 0):
                    mem = w.member(a[2][2])
                    mem = mem if mem == ("nodes",) else ("?",)
                elif a[0] == "M" and a[1] == "size":
                    mem = w.member(a[2])
                    mem = ("?",) if mem == ("nodes",) else mem
            if want and mem:
                P(w, res, "field", mem == (want,), n, e, "%s fields: one value per %s" % (kind, kind), key + "|count", "%s fields are written with a number of values that is not the number of %s" % (kind, want))
            whole(w, res, n, e, Ls, d, kind, role)
        if nm == "DBPutCompoundarray" and const(c[4]) is None:
            t = term(w.fl, c[4], n)
            d = t[2][1] if t[0] == "M" and t[1] == "size" and t[2][0] == "v" else None
            if d not in w.maps:
                continue
            kind, role = w.maps[d]
            seen.setdefault(d, []).append((n, e))
            res.count("tags")
            nt = w.sval(c[1], n)
            if nt is not None and len({t for _, t in nt}) == 1:
                got = "".join(x[1] for x in list(nt)[0][1] if x[0] == "s")
                P(w, res, "tags", got == TAGNAMES[kind], n, e, "%s tags: name of the list" % kind, "tags|%s|listname" % kind, "%s tags are written as '%s'" % (kind, got))
            elif nt is not None and nt:
                res.notes.append("name of the %s tag list undecided" % kind)
            whole(w, res, n, e, w.S.loops(n), d, kind, role)
    for d, (kind, role) in w.maps.items():
        k = len(seen.get(d, ()))
        if k == 0:
            res.bad(role, w.f.loc(), "%s %s" % (kind, role), "%s|%s|%s|unwritten" % (w.f.rel.split("/")[-1], role, kind), "%s: the %s %s are never written" % (w.f.short, kind, role))
        else:
            res.ok(role, w.f.loc(), "%s %s written" % (kind, role))


def whole(w, res, n, e, Ls, d, kind, role):
    """every entry of the map is written, on every path"""
    fl = w.fl
    why = None
    if role == "fields":
        if len(Ls) != 1 or not Ls[0].full or Ls[0].container != ("v", d) or not w.S.each(n, Ls[0]):
            why = "not for every entry"
    at = Ls[0].head if Ls else n
    # the only conditions allowed on the way are about the map itself
    pd = fl.cfg.dominators(post=True)
    for x in fl.cfg.livenodes():
        if x.kind != "cond" or x.e["k"] == "rangecond" or x.i == at.i or not w.S.before(x, at) and x.i != at.i:
            continue
        if any(x.i in L.ids for L in w.S.loops(x)):
            continue
        if (pd[x.i] >> at.i) & 1 or not decides(fl, x, at):
            continue
        t = term(fl, x.e, x)
        if isempty(t, d) or w.dead(x) is not None:
            continue
        if has(t, ("none",)):
            continue
        why = why or "only when %s" % expr_str(x.e)
    P(w, res, role, why is None, n, e, "%s %s: all of them, always" % (kind, role), "%s|%s|whole" % (role, kind), "the %s %s are not all written: %s" % (kind, role, why))


def isempty(t, d):
    """a test of whether map d has entries at all"""
    if t[:1] == ("u",) and t[1] == "!":
        return isempty(t[2], d)
    ism = lambda u, *ms: u[:1] == ("M",) and u[1] in ms and u[2][:2] == ("v", d)
    if ism(t, "empty", "size"):
        return True
    if t[:1] == ("b",) and len(t) == 4:
        for a, b, op in ((t[2], t[3], t[1]), (t[3], t[2], {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(t[1], t[1]))):
            if ism(a, "size") and b[0] == "k":
                return (op, b[1]) in (("==", 0), ("!=", 0), (">", 0), ("<=", 0), (">=", 1), ("<", 1))
    return "begin" in repr(t) and "end" in repr(t) and has(t, ("v", d))


def decides(fl, x, at):
    """one outcome of x cannot reach `at`"""
    for s, _ in x.succ:
        seen, todo, hit = set(), [s], False
        while todo:
            y = todo.pop()
            if y.i == at.i:
                hit = True
                break
            if y.i in seen:
                continue
            seen.add(y.i)
            todo += [z for z, _ in y.succ]
        if not hit:
            return True
    return False


def names(w, res):
    """(d) multi-block names"""
    wait = [(n, e) for n, e, nm in w.calls if nm == "PMPIO_WaitForBaton"]
    if len(wait) != 1:
        res.notes.append("no single baton in %s" % w.f.short)
        return
    n0, e0 = wait[0]
    F, Dr = w.sval(e0["c"][1], n0), w.sval(e0["c"][2], n0)
    mesh = [w.lit(e["c"][1], n) for n, e, nm in w.calls if nm == "DBPutUcdmesh"]
    if F is None or Dr is None or len(mesh) != 1 or mesh[0] is None:
        res.notes.append("file names undecided in %s" % w.f.short)
        return
    mesh = mesh[0]
    master = {}
    for n, e, nm in w.calls:
        if nm == "DBCreate":
            master[id(e)] = w.sval(e["c"][0], n)
    for n, e, nm in w.calls:
        if nm not in ("DBPutMultimesh", "DBPutMultivar"):
            continue
        c = e["c"]
        src = source(w, c[0], n)
        field = (("str", None),)
        if nm == "DBPutMultimesh":
            tail = ("s", "/" + mesh)
        else:
            tail = None
        if src == "PMPIO_WaitForBaton":
            want = {(g, t) for g, t in Dr}
            where = "group"
            rooted = any(m == "DBSetDir" and w.lit(x["c"][1], y) == "/" and w.S.dominates(y, n) and source(w, x["c"][0], y) == src for y, x, m in w.calls)
            P(w, res, "multi-block", rooted, n, e, "%s in the root of the group file" % nm, "%s|root" % nm, "%s is written in the directory of one rank, its names are relative to the root of the file" % nm)
        elif isinstance(src, int) and master.get(src):
            M = master[src]
            want = set()
            for g, t in F:
                m = [y for h, y in M if h == g] or [y for h, y in M]
                r = relative(t, m[0])
                if r is None:
                    P(w, res, "multi-block", False, n, e, "files below the directory of the master file", "%s|below" % nm, "the files the ranks write (%s) are not below the directory of the master file (%s)" % (show(t, w.fl), show(m[0], w.fl)))
                    return
                for h, y in Dr:
                    want.add((g | h, merge(r + (("s", ":/"),) + y)))
            where = "master"
        else:
            res.notes.append("%s: file undecided at %s" % (nm, w.loc(e)))
            continue
        got = set()
        d = w.arr(c[3], n)
        und = False
        if d is None:
            continue
        for m in w.fl.cfg.livenodes():
            for x in writes(w.fl, m):
                if x.rhs is None or not w.S.before(m, n) or not any(p[0] == ("L", d) for p in x.places) or x.kind not in ("asgn", "mut:push_back", "mut:emplace_back"):
                    continue
                r = w.sval(x.rhs, m)
                if r is None:
                    und = True
                else:
                    got |= r
        if und or not got:
            res.notes.append("%s: names undecided at %s" % (nm, w.loc(e)))
            continue
        res.count("multi-block objects")
        if nm == "DBPutMultimesh":
            want = {(g, merge(t + (tail,))) for g, t in want}
        else:
            # every map contributes its own names: strip the field name
            g2 = set()
            bad = None
            for g, t in got:
                if not t or t[-1][0] != "str" or not isinstance(t[-1][1], tuple) or t[-1][1][:1] != ("m",) or t[-1][1][2] != "first":
                    bad = t
                else:
                    g2.add((g, t[:-1]))
            if bad is not None:
                P(w, res, "multi-block", False, n, e, "%s names of fields" % where, "%s|%s|fieldname" % (nm, where), "%s does not name the fields (%s)" % (nm, show(bad, w.fl)))
                continue
            got = g2
            want = {(g, merge(t + (("s", "/"),))) for g, t in want}
        gl = {t for _, t in got}
        wl = {t for _, t in want}
        good = got == want or gl == wl and not all(g for g, _ in got)
        P(w, res, "multi-block", good, n, e, "%s in the %s file: %s" % (nm, where, " / ".join(sorted(show(t, w.fl) for t in wl))), "%s|%s|names" % (nm, where),
          "%s in the %s file names %s, but the ranks write %s" % (nm, where, " / ".join(sorted(show(t, w.fl) for t in gl)), " / ".join(sorted(show(t, w.fl) for t in wl))))
    order(w, res)


def order(w, res):
    """names are collected and written for the same maps in the same order"""
    groups = {}
    for n, e, nm in w.calls:
        if nm == "DBPutMultivar":
            d = w.arr(e["c"][3], n)
            Ls = w.S.loops(n)
            if d is not None and Ls and Ls[-1].container and Ls[-1].container[0] == "v":
                groups.setdefault(d, []).append((n, e, Ls[-1]))
    for d, puts in groups.items():
        push = []
        for m in w.fl.cfg.livenodes():
            for x in writes(w.fl, m):
                if x.kind in ("mut:push_back", "mut:emplace_back", "asgn") and any(p[0] == ("L", d) and len(p) >= 2 for p in x.places):
                    Ls = w.S.loops(m)
                    if Ls and Ls[-1].container and Ls[-1].container[0] == "v":
                        push.append((m, x.e, Ls[-1]))
        dm = lambda m: bin(w.S.dom[m.i]).count("1")
        a = [L.container[1] for m, _, L in sorted(push, key=lambda y: dm(y[0]))]
        b = [L.container[1] for m, _, L in sorted(puts, key=lambda y: dm(y[0]))]
        if not a:
            continue
        fields = [x for x, (k, r) in w.maps.items() if r == "fields"]
        res.count("multi-block objects")
        n, e, _ = puts[0]
        P(w, res, "multi-block", a == b and set(b) == set(fields), n, e, "fields collected and written in the same order", "order",
          "the field names are collected for %s but written for %s" % ([w.fl.vname(x) for x in a], [w.fl.vname(x) for x in b]))


def relative(t, m):
    """t relative to the directory of the file m"""
    # directory part of m: everything up to the last '/'
    for i in range(len(m) - 1, -1, -1):
        if m[i][0] == "s" and "/" in m[i][1]:
            dirp = m[:i] + (("s", m[i][1][:m[i][1].rindex("/") + 1]),)
            break
    else:
        return t
    if len(t) < len(dirp) or t[:len(dirp) - 1] != dirp[:-1]:
        return None
    x = t[len(dirp) - 1]
    if x[0] != "s" or not x[1].startswith(dirp[-1][1]):
        return None
    return merge((("s", x[1][len(dirp[-1][1]):]),) + t[len(dirp):])


def source(w, e, n):
    """where a DBfile* comes from: the name of the baton call, or id of the DBCreate/DBOpen call"""
    x = strip_casts(e)
    d = deref_local(x)
    if d is not None:
        out = set()
        for y in w.fl.reaching(n, d):
            if y.kind in ("init", "asgn") and y.e is not None:
                out.add(source(w, y.e, y.node))
            else:
                out.add(None)
        return out.pop() if len(out) == 1 else None
    while x["k"] == "bin" and x["o"] == ",":      # the library's macros check its version first
        x = strip_casts(x["c"][-1])
    if x["k"] == "call":
        nm = short(x.get("n", "")).replace("DBCreateReal", "DBCreate").replace("DBOpenReal", "DBOpen")
        if nm == "PMPIO_WaitForBaton":
            return nm
        if nm in ("DBCreate", "DBOpen"):
            return id(x)
    return None


def typestate(w, res):
    """(e) baton and files"""
    fl = w.fl
    ex = fl.cfg.exit
    first = {}
    for nm in ("PMPIO_Init", "PMPIO_WaitForBaton", "PMPIO_HandOffBaton", "PMPIO_Finish"):
        cs = [(n, e) for n, e, m in w.calls if m == nm]
        if not cs:
            continue
        first[nm] = cs
        n, e = cs[0]
        P(w, res, "baton", len(cs) == 1 and w.S.dominates(n, ex) and not n.loops, n, e, "%s once on every path" % nm, nm, "%s is not called exactly once on every path" % nm)
    seq = [k for k in ("PMPIO_Init", "PMPIO_WaitForBaton", "PMPIO_HandOffBaton", "PMPIO_Finish") if k in first]
    if 0 < len(seq) < 4:
        res.bad("baton", w.f.loc(), "sequence", "%s|missing" % w.f.rel.split("/")[-1], "%s: the baton protocol is incomplete (%s)" % (w.f.short, ", ".join(seq)))
    for a, b in zip(seq, seq[1:]):
        P(w, res, "baton", w.S.dominates(first[a][0][0], first[b][0][0]), first[b][0][0], first[b][0][1], "%s before %s" % (a, b), "%s<%s" % (a, b), "%s can be called before %s" % (b, a))
    hand = first.get("PMPIO_HandOffBaton")
    for n, e, nm in w.calls:
        if not nm.startswith("DB") or nm in ("DBCreate", "DBOpen", "DBClose") or not e.get("c") or "DBfile" not in (strip_casts(e["c"][0]).get("t") or ""):
            continue
        src = source(w, e["c"][0], n)
        if src == "PMPIO_WaitForBaton" and hand:
            res.count("uses of the shared file")
            late = w.S.before(hand[0][0], n)
            P(w, res, "baton", not late, n, e, "%s while holding the baton" % nm, "%s|late" % nm, "%s uses the shared file after the baton was handed on" % nm)
    # files this function opens itself
    for n, e, nm in w.calls:
        if nm not in ("DBCreate", "DBOpen"):
            continue
        uses = [(m, x, k) for m, x, k in w.calls if k.startswith("DB") and x.get("c") and x is not e and source(w, x["c"][0], m) == id(e)]
        cl = [m for m, x, k in uses if k == "DBClose"]
        res.count("files opened")
        pd = fl.cfg.dominators(post=True)
        P(w, res, "closed", any((pd[n.i] >> m.i) & 1 for m in cl), n, e, "%s is closed on every path" % expr_str(e["c"][0]), "close|%s" % expr_str(e["c"][0]), "the file opened here is not closed on every path")
        late = [x for m, x, k in uses if any(w.S.before(y, m) and y.i != m.i for y in cl)]
        P(w, res, "closed", not late, n, e, "%s is not used after it is closed" % expr_str(e["c"][0]), "late|%s" % expr_str(e["c"][0]), "the file is used after it is closed")


def callbacks(prog, w, res):
    ini = [(n, e) for n, e, nm in w.calls if nm == "PMPIO_Init"]
    if len(ini) != 1:
        return
    n, e = ini[0]
    for i, role in ((4, "create"), (5, "open"), (6, "close")):
        g = strip_casts(e["c"][i])
        while g["k"] == "un":
            g = strip_casts(g["c"][0])
        f = prog.funcs.get(g.get("gk")) or next((h for k, h in prog.funcs.items() if h.body is not None and short(h.name) == short(g.get("n") or "") and h.rel == w.f.rel), None)
        if f is None or f.body is None:
            res.notes.append("callback %s not found" % role)
            continue
        callback(prog, res, f, role)


def callback(prog, res, f, role):
    inl = Inliner(prog, lambda t, n: t.rel.startswith("src/"), maxdepth=4).run(f)
    fl = Flow(inl, CFG(inl.body))
    dom = fl.cfg.dominators()
    mode = [p["d"] for p in inl.params if "iomode" in p["t"]]
    strs = [p["d"] for p in inl.params if "char" in p["t"]]

    def live(write):
        """nodes reachable when the mode is write / read"""
        seen, todo = set(), [fl.cfg.entry]
        while todo:
            x = todo.pop()
            if x.i in seen:
                continue
            seen.add(x.i)
            for s, lab in x.succ:
                if x.kind == "cond" and mode:
                    t = strip_casts(x.e)
                    if t["k"] == "bin" and t["o"] in ("==", "!=") and any(deref_local(y) in mode for y in t["c"]):
                        other = [y for y in t["c"] if deref_local(y) not in mode]
                        v = const(other[0]) if other else None
                        if v is not None:
                            is_w = v == 3
                            truth = (is_w == write) == (t["o"] == "==")
                            if lab is not truth:
                                continue
                todo.append(s)
        return seen

    def calls(ids):
        out = []
        for x in fl.cfg.livenodes():
            if x.i in ids:
                for y in fl.subexprs(x):
                    if y["k"] == "call" and short(y.get("n", "")).startswith("DB"):
                        out.append((x, y, short(y["n"]).replace("DBCreateReal", "DBCreate").replace("DBOpenReal", "DBOpen")))
        return out

    def bad(good, what, key, msg, at=None):
        res.check(good, "callback", inl.loc(at) if at is not None else f.loc(), "%s: %s" % (f.short, what), "%s|%s|%s" % (f.rel.split("/")[-1], role, key), "%s (%s): %s" % (f.short, f.rel, msg))

    def always(ids, ns):
        """every path to the exit within ids passes one of the nodes"""
        stop = {x.i for x in ns}
        seen, todo = set(), [fl.cfg.entry]
        while todo:
            x = todo.pop()
            if x.i in seen or x.i not in ids or x.i in stop:
                continue
            if x.i == fl.cfg.exit.i:
                return False
            seen.add(x.i)
            todo += [s for s, _ in x.succ]
        return True

    def arg(e, n, k):
        ps = fl.names_of(e, n) if hasattr(fl, "names_of") else None
        t = term(fl, e, n)
        return t[0] == "v" and k < len(strs) and t[1] == strs[k]
    res.count("callbacks")
    for write in ((True,) if role != "open" else (True, False)):
        ids = live(write)
        cs = calls(ids)
        by = lambda nm: [(x, y) for x, y, m in cs if m == nm]
        md = "write" if write else "read"
        if role == "close":
            bad(always(ids, [x for x, y in by("DBClose")]), "closes the file", "close", "does not close the file on every path")
            continue
        if role == "create":
            op = by("DBCreate") + [(x, y) for x, y in by("DBOpen")]
            bad(bool(by("DBCreate")) and always(ids, [x for x, _ in by("DBCreate")]), "creates the file", "create", "does not create the file")
        else:
            op = by("DBOpen")
            bad(not by("DBCreate"), "does not recreate the file (%s)" % md, "recreate|" + md, "recreates the file: what the ranks before this one wrote is lost", by("DBCreate")[0][1] if by("DBCreate") else None)
            if by("DBCreate"):
                continue
            bad(bool(op) and always(ids, [x for x, _ in op]), "opens the file (%s)" % md, "open|" + md, "does not open the file")
            for x, y in op:
                v = const(y["c"][2])
                if v is not None:
                    bad(v == (2 if write else 1), "opened for %s" % ("appending" if write else "reading"), "mode|" + md, "opens the file in the wrong mode when %sing" % md.rstrip("e").replace("writ", "writ"), y)
        for x, y in op:
            bad(arg(y["c"][0], x, 0), "the file named by the caller", "file|" + md, "does not open the file it is asked for", y)
        if write:
            mk = by("DBMkDir")
            bad(bool(mk) and always(ids, [x for x, _ in mk]) and all(arg(y["c"][1], x, 1) for x, y in mk), "creates its directory (%s)" % md, "mkdir|" + md, "does not create the directory of its rank")
        sd = by("DBSetDir")
        bad(bool(sd) and always(ids, [x for x, _ in sd]) and all(arg(y["c"][1], x, 1) for x, y in sd), "enters its directory (%s)" % md, "setdir|" + md, "does not enter the directory of its rank")
