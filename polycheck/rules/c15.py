"""The C structs and the C++ objects describe the same thing: every member of the C
tessellation is filled from its C++ counterpart and back, completely and in the
documented layout, and the C entry points hand the caller's arrays, with their real
lengths, to the operation of the same dimension.

Rules: (a) symbolic evaluation of the two conversion functions of each dimension: a
flat array is allocated for and receives all elements of its counterpart, its counter
is their number; a table of rows is stored as offsets[i] = number of entries in rows
before i (for i = 0..rows, the last included) and content[offsets[i]+j] = row[i][j]; the
reverse reads exactly content[offsets[i]..offsets[i+1]) into row i; the two cells of face f
are at 2f and 2f+1, the second -1 when there is none.  (b) both members of a PLC are
copied, in the branch of its dimension.  (c) a C entry point passes to the
D-dimensional tessellator vectors made of exactly D*count values of the caller's
arrays, in the order of the parameters, and returns the tessellation it produced;
the 2D and the 3D branch of every entry point do the same."""
from ..effects import loop_info, poly, term, writes
from ..flow import ELEM, Flow, bare, is_ptr
from ..ir import CFG, AnalysisError, Inliner, const, expr_str, short, strip_casts, walk
from .. import mpi
import re

ASSUMES = ["neighborDomains, sharedNodes and sharedFaces have equal lengths (C05), faces and faceCells have equal lengths (C06)"]
CT = "polytope_tessellation_t"
# C++ member -> (C content, C offsets or None, C counter, entries per element)
FLAT = {"nodes": ("nodes", "num_nodes", True), "boundaryNodes": ("boundary_nodes", "num_boundary_nodes", False),
        "boundaryFaces": ("boundary_faces", "num_boundary_faces", False), "neighborDomains": ("neighbor_domains", "num_neighbor_domains", False)}
ROWS = {"cells": ("cell_faces", "cell_offsets", "num_cells"), "faces": ("face_nodes", "face_offsets", "num_faces"),
        "sharedNodes": ("shared_nodes", "shared_node_domain_offsets", "num_neighbor_domains"),
        "sharedFaces": ("shared_faces", "shared_face_domain_offsets", "num_neighbor_domains")}
PAIR = {"faceCells": ("face_cells", "num_faces")}
SAMESIZE = {"faceCells": "faces", "sharedNodes": "neighborDomains", "sharedFaces": "neighborDomains"}


def dim_of(t):
    m = re.search(r"(?:Tessellation|PLC|Tessellator)<\s*(\d)", t or "")
    return int(m.group(1)) if m else None


class Conv:
    """one conversion function"""

    def __init__(self, prog, f, cparam, xparam):
        self.prog, self.f = prog, f
        self.inl = Inliner(prog, lambda t, n: "polytope_c/" in t.rel and not t.name.startswith("polytope_") and short(t.name) != "fill_plc", maxdepth=6).run(f)
        self.fl = Flow(self.inl, CFG(self.inl.body))
        self.c = self.inl.params[cparam]["d"]
        self.x = self.inl.params[xparam]["d"]
        self.dim = dim_of(f.params[xparam]["t"])
        fl = self.fl
        self.W = []
        for n in fl.cfg.livenodes():
            for w in writes(fl, n):
                self.W.append(w)
        self.dom = fl.cfg.dominators()
        self.pdom = fl.cfg.dominators(post=True)
        self.counts = {}       # C counter -> (term, Write)
        for w in self.W:
            m = self.member(w, self.c)
            if m and len(m) == 1 and w.kind == "asgn":
                self.counts.setdefault(m[0], []).append(w)
        self.sizes = {}        # C++ member -> resize term (decode)
        for w in self.W:
            m = self.member(w, self.x)
            if m and len(m) == 1 and w.kind in ("mut:resize", "mut:assign") and w.rhs is not None:
                self.sizes.setdefault(m[0], []).append(w)
        self.counters = {}
        for d in fl.by_local:
            k = self.counter(d)
            if k:
                self.counters[d] = k

    def member(self, w, root):
        """the steps below the struct, if w writes into exactly one place below it"""
        ps = [p for p in w.places if p[0] == ("A", root)]
        if len(ps) != 1 or len(w.places) != 1:
            return None
        return ps[0][1:]

    def root(self, d):
        return ("v", d)

    # -- normalised terms: counters and sizes are expanded
    def nt(self, e, n):
        x = strip_casts(e)
        if x["k"] in ("un", "opcall") and x.get("o") in ("++", "--") and x["c"]:
            v = self.nt(x["c"][0], n)      # the value before, or after the step
            return v if x.get("post") else ("b", "+" if x["o"] == "++" else "-", v, ("k", 1))
        return self.norm(term(self.fl, e, n), n)

    def norm(self, t, n, depth=0):
        if not isinstance(t, tuple) or depth > 40 or not t or t[0] == "S" or not isinstance(t[0], str):
            return t
        if t[0] == "v":
            d = t[1]
            if d in self.counters:
                v = self.value(d, n)
                if v is not None:
                    return v
            return ("v", d)
        if t[0] == "m" and t[1][0] == "v" and t[1][1] == self.c and t[2] in self.counts and len(self.counts[t[2]]) == 1:
            w = self.counts[t[2]][0]
            return self.nt(w.rhs, w.node)
        r = tuple(self.norm(x, n, depth + 1) if isinstance(x, tuple) else x for x in t)
        if r[0] == "M" and r[1] == "size" and len(r) == 3:
            x = r[2]
            if x[0] == "m" and x[1] == ("v", self.x):
                if len(self.sizes.get(x[2], ())) == 1:
                    w = self.sizes[x[2]][0]
                    return self.norm(term(self.fl, w.rhs, w.node), w.node)
                if x[2] in SAMESIZE and not self.sizes:
                    return ("M", "size", ("m", x[1], SAMESIZE[x[2]]))
            if x[0] == "x" and x[1][0] == "m" and x[1][1] == ("v", self.x):
                rs = [w for w in self.W if self.member(w, self.x) == (x[1][2], ELEM) and w.kind == "mut:resize"]
                if len(rs) == 1:
                    return self.norm(term(self.fl, rs[0].rhs, rs[0].node), rs[0].node)
        return r

    def poly(self, t):
        """polynomial with D*(x/D) = x"""
        p = dict(poly(t))
        q = {}
        for m, c in p.items():
            m2 = []
            for a in m:
                if a[0] == "b" and a[1] == "/" and a[3][0] == "k" and c % a[3][1] == 0:
                    c = c // a[3][1]
                    m2.append(a[2])
                else:
                    m2.append(a)
            k = tuple(sorted(m2, key=repr))
            q[k] = q.get(k, 0) + c
        return {m: c for m, c in q.items() if c}

    def peq(self, a, b):
        return self.poly(a) == self.poly(b)

    def loops(self, n):
        return [loop_info(self.fl, s) for s in n.loops]

    def crow(self, L):
        """(C++ member, loop variable) of a loop over all rows of a member"""
        if not L.full or L.var is None:
            return None
        c = L.container
        if c is None and L.bound is not None and L.start == ("k", 0):
            b = self.norm(L.bound, L.bound_n)
            for m in list(ROWS) + list(PAIR):
                if self.poly(b) == self.poly(self.rows(m)):
                    return ("=" + m, L.var)
            return None
        if c is not None and c[0] == "m" and c[1][:2] == ("v", self.x):
            return (c[2], L.var)
        return None

    def rows(self, m):
        """number of rows of a C++ member as a normalised term"""
        return self.norm(("M", "size", ("m", ("v", self.x), m)), None)

    def counter(self, d):
        """(member, outer loop, inner loop or None, start def, update def) for a local that counts the entries of the rows"""
        fl = self.fl
        ds = fl.by_local.get(d, [])
        starts = [x for x in ds if x.kind in ("init", "asgn")]
        ups = [x for x in ds if x.kind == "upd"]
        if len(starts) != 1 or len(ups) != 1 or len(ds) != 2 or const(starts[0].e) != 0:
            return None
        u, e = ups[0], ups[0].e
        Ls = self.loops(u.node)
        if not Ls:
            return None
        one = e["k"] in ("un", "opcall") and e["o"] == "++" or e["o"] == "+=" and const(e["c"][1]) == 1
        for k in range(len(Ls)):
            if starts[0].node.loops[:k + 1] == u.node.loops[:k + 1]:
                continue
        if one and len(Ls) >= 2:
            r = self.crow(Ls[-2])
            row = self.rowof(Ls[-1])
            if r and row and self.each(u.node, Ls[-1]) and self.each(Ls[-1].head, Ls[-2]) and row[1] == r[1] and u.d not in (Ls[-1].var, Ls[-2].var):
                if starts[0].node.loops == u.node.loops[:-2]:
                    return (row[0], Ls[-2], Ls[-1], starts[0], u)
        if e["k"] in ("asgn", "opcall") and e["o"] == "+=":
            t = strip1(term(fl, e["c"][1], u.node))
            if t[0] == "M" and t[1] == "size" and t[2][0] == "x":
                a, ix = t[2][1], t[2][2]
                r = self.crow(Ls[-1])
                if r and a[0] == "m" and a[1][:2] == ("v", self.x) and ix[0] == "v" and ix[1] == r[1] and self.each(u.node, Ls[-1]):
                    if starts[0].node.loops == u.node.loops[:-1]:
                        return (a[2], Ls[-1], None, starts[0], u)
        return None

    def rowof(self, L):
        """(member, row variable) if the loop runs over all entries of one row"""
        if not L.full:
            return None
        c = L.container
        if c is not None and c[0] == "x" and c[1][0] == "m" and c[1][1][:2] == ("v", self.x) and c[2][0] == "v":
            return (c[1][2], c[2][1])
        return None

    def each(self, n, L):
        """executed on every iteration"""
        back = [p for p, _ in L.head.pred if p.i in L.ids]
        return bool(back) and all(self.dom[b.i] >> n.i & 1 for b in back)

    def value(self, d, n):
        """the counter as a term at node n: entries in the rows before i, plus j"""
        m, L1, L2, st, u = self.counters[d]
        if n is None:
            return None
        defs = {x.i for x in self.fl.reaching(n, d)}
        S = lambda ix: ("S", m, tuple(sorted(self.poly(ix).items(), key=repr)))
        i = ("v", L1.var)
        inL1 = any(s is L1.s for s in n.loops)
        if L2 is not None and any(s is L2.s for s in n.loops):
            j = ("v", L2.var) if L2.s["k"] != "forrange" else ("ri", L2.var)
            after = defs == {u.i}
            v = ("b", "+", S(i), j)
            return ("b", "+", v, ("k", 1)) if after else v
        if inL1:
            past = (self.dom[n.i] >> L2.head.i & 1) if L2 is not None else defs == {u.i}
            return S(("b", "+", i, ("k", 1))) if past else S(i)
        if self.dom[n.i] >> L1.head.i & 1:
            return S(self.rows(m))
        return None


def strip1(t):
    return t


def sizeof_(t):
    return {"int": 4, "unsigned int": 4, "double": 8, "float": 4, "unsigned": 4}.get((t or "").replace("*", "").strip())


def run(prog, res, tier):
    enc, dec = [], []
    for f in prog.funcs.values():
        if f.body is None or len(f.params) != 2:
            continue
        ts = [p["t"] for p in f.params]
        ci = [i for i, t in enumerate(ts) if CT in t]
        xi = [i for i, t in enumerate(ts) if re.search(r"\bTessellation<", t)]
        if len(ci) != 1 or len(xi) != 1:
            continue
        (enc if ts[xi[0]].startswith("const") else dec).append((f, ci[0], xi[0]))
    fields = {x["n"]: x["t"] for x in prog.fields(CT)}
    for f, ci, xi in enc:
        res.count("conversions")
        encode(Conv(prog, f, ci, xi), res, fields)
    for f, ci, xi in dec:
        res.count("conversions")
        decode(Conv(prog, f, ci, xi), res, fields)
    plcs(prog, res)
    entries(prog, res)
    res.floor("conversions", 2)
    res.floor("members converted", 10)
    res.floor("entry points", 3)


def once(C, w):
    """the write happens on every path through the function"""
    return bool(C.dom[C.fl.cfg.exit.i] >> w.node.i & 1)


def alloc_bytes(C, w):
    x = strip_casts(w.rhs)
    if x["k"] == "call" and short(x.get("n", "")) == "malloc":
        return C.nt(x["c"][0], w.node)
    if x["k"] == "call" and short(x.get("n", "")) == "calloc":
        return ("b", "*", C.nt(x["c"][0], w.node), C.nt(x["c"][1], w.node))
    return None


def atleast(C, got, need):
    """True / False / None: allocation at least as large as what is stored"""
    d = C.poly(("b", "-", got, need))
    if not d:
        return True
    if set(d) == {()}:
        return d[()] >= 0
    return None


def encode(C, res, fields):
    f, fl = C.f, C.fl
    X = lambda m: ("m", ("v", C.x), m)
    D = C.dim

    def bad(rule, w, member, why):
        loc = C.inl.loc(w.e) if w is not None else f.loc()
        res.bad(rule, loc, member, "%s|%s|%dd|%s" % (f.short, member, D, why), "%s (%dD): %s: %s%s" % (
            f.short, D, member, why, " [%s]" % expr_str(w.e)[:100] if w is not None else ""))

    def ok(rule, w, member, what):
        res.ok(rule, C.inl.loc(w.e) if w is not None else f.loc(), "%s (%dD): %s" % (member, D, what))

    def room(cm, need, elem):
        """allocations of the C member"""
        ws = [w for w in C.W if C.member(w, C.c) == (cm,) and w.kind == "asgn" and alloc_bytes(C, w) is not None]
        for w in ws:
            r = atleast(C, alloc_bytes(C, w), ("b", "*", ("k", elem), need))
            if r is True:
                ok("room", w, cm, "room for everything stored")
            elif r is False:
                bad("room", w, cm, "the block is smaller than what is stored in it")
            else:
                b, q = C.poly(alloc_bytes(C, w)), C.poly(("b", "*", ("k", elem), need))
                # both plain element counts but of different things
                sizes = lambda p: {a for m in p for a in m if a[0] in ("M", "S")}
                if sizes(b) and sizes(q) and not (sizes(b) & sizes(q)):
                    bad("room", w, cm, "the block is sized for something else")
                elif sizes(b) == sizes(q) and all(b.get(m, 0) < c for m, c in q.items() if m):
                    bad("room", w, cm, "the block is smaller than what is stored in it")
                else:
                    res.notes.append("%s: room of %s undecided at %s" % (f.short, cm, C.inl.loc(w.e)))

    def count(cn, m, per):
        ws = C.counts.get(cn, [])
        need = ("M", "size", X(m))
        if not ws:
            bad("count", None, cn, "the counter is never set")
            return
        for w in ws:
            got = C.nt(w.rhs, w.node)
            good = C.peq(("b", "*", ("k", per), got) if per > 1 else got, C.norm(need, None))
            if not once(C, w) and len(ws) == 1:
                bad("count", w, cn, "the counter is not set on every path")
            elif good:
                ok("count", w, cn, "number of %s" % m)
            else:
                bad("count", w, cn, "the counter is not the number of %s" % m)
    for m, (cm, cn, coords) in FLAT.items():
        res.count("members converted")
        per = D if coords else 1
        count(cn, m, per)
        need = C.norm(("M", "size", X(m)), None)
        room(cm, need, sizeof_(fields.get(cm)))
        content(C, res, bad, ok, m, cm, need)
    for m, (cm, off, cn) in ROWS.items():
        res.count("members converted")
        count(cn, SAMESIZE.get(m, m), 1)
        rows = C.rows(m)
        total = ("S", m, tuple(sorted(C.poly(rows).items(), key=repr)))
        room(cm, total, sizeof_(fields.get(cm)))
        room(off, ("b", "+", rows, ("k", 1)), sizeof_(fields.get(off)))
        # offsets
        ws = [w for w in C.W if C.member(w, C.c) == (off, ELEM)]
        covers = set()
        und = False
        for w in ws:
            if w.kind != "asgn" or strip_casts(w.target)["k"] not in ("idx", "opcall"):
                und = True
                continue
            ix = C.nt(strip_casts(w.target)["c"][1], w.node)
            v = C.nt(w.rhs, w.node)
            want = ("S", m, tuple(sorted(C.poly(ix).items(), key=repr)))
            if C.peq(v, want) or (C.poly(ix) == {} and C.poly(v) == {}):
                ok("row-offsets", w, off, "entries in the rows before it")
                Ls = C.loops(w.node)
                rl = [L for L in Ls if C.crow(L) and C.crow(L)[0].lstrip("=") in (m, *same(m))]
                if rl and C.each(w.node, rl[-1]) and C.peq(ix, ("v", rl[-1].var)):
                    covers.add("head")
                elif rl and C.each(w.node, rl[-1]) and C.peq(ix, ("b", "+", ("v", rl[-1].var), ("k", 1))):
                    covers.add("tail")
                elif not Ls and C.peq(ix, rows) and once(C, w):
                    covers.add("last")
                elif not Ls and C.poly(ix) == {} and once(C, w):
                    covers.add("first")
            elif has(v, "S") or C.poly(v) and const(w.rhs) is not None:
                bad("row-offsets", w, off, "the entry is not the number of %s entries in the rows before it" % m)
            else:
                und = True
        if und:
            res.notes.append("%s: %s undecided" % (f.short, off))
        elif not ws:
            bad("row-offsets", None, off, "the offsets are never filled")
        elif not ({"head", "last"} <= covers or {"tail", "first"} <= covers):
            bad("row-offsets", ws[-1], off, "not every offset, the one past the last row included, is filled (%s)" % (", ".join(sorted(covers)) or "none"))
        else:
            ok("row-offsets", ws[-1], off, "all rows + 1 offsets filled")
        # content
        ws = [w for w in C.W if C.member(w, C.c) == (cm, ELEM)]
        good = False
        und = False
        for w in ws:
            if w.kind == "asgn":
                ix = C.nt(strip_casts(w.target)["c"][1], w.node) if strip_casts(w.target)["k"] in ("idx", "opcall") and len(strip_casts(w.target)["c"]) == 2 else None
                v = term(fl, w.rhs, w.node)
                if ix is None or not (v[0] == "x" and v[1][0] == "x" and v[1][1][0] == "m"):
                    und = True
                    continue
                if v[1][1][1][:2] != ("v", C.x) or v[1][1][2] != m:
                    bad("row-content", w, cm, "filled from %s instead of %s" % (v[1][1][2], m))
                    good = True
                    continue
                i, j = C.norm(v[1][2], w.node), C.norm(v[2], w.node)
                want = ("b", "+", ("S", m, tuple(sorted(C.poly(i).items(), key=repr))), j)
                alt = ("b", "+", ("x", ("m", ("v", C.c), off), i), j)
                if C.peq(ix, want) or C.poly(ix) == C.poly(C.norm(alt, w.node)):
                    Ls = C.loops(w.node)
                    full = len(Ls) >= 2 and C.rowof(Ls[-1]) and C.crow(Ls[-2]) and C.each(w.node, Ls[-1])
                    if full:
                        ok("row-content", w, cm, "entry j of row i at offsets[i]+j")
                    else:
                        bad("row-content", w, cm, "not every entry of every row is stored")
                    good = True
                elif has(ix, "S") or any(C.counters.get(d) for d in vs(term(fl, strip_casts(w.target)["c"][1], w.node))) or has(ix, "x"):
                    bad("row-content", w, cm, "entry j of row i is not stored at offsets[i]+j")
                    good = True
                elif any(partial(C, L) for L in C.loops(w.node) if L.var in (i[1], j[1])):
                    bad("row-content", w, cm, "not every entry of every row is stored")
                    good = True
                else:
                    und = True
            elif w.kind == "algo:copy":
                c = w.e["c"]
                a, b, o = term(fl, c[0], w.node), term(fl, c[1], w.node), C.nt(c[2], w.node)
                if a[0] == "M" and b[0] == "M" and a[1] in ("begin", "cbegin") and b[1] in ("end", "cend") and a[2] == b[2] and a[2][0] == "x":
                    i = C.norm(a[2][2], w.node)
                    src = a[2][1]
                    if src[0] == "m" and src[2] != m:
                        bad("row-content", w, cm, "filled from %s instead of %s" % (src[2], m))
                    base = ("m", ("v", C.c), cm)
                    o = unalloc(o, base)
                    want = C.poly(("b", "+", base, ("S", m, tuple(sorted(C.poly(i).items(), key=repr)))))
                    alt = C.poly(("b", "+", base, ("x", ("m", ("v", C.c), off), i)))
                    if C.poly(o) in (want, alt):
                        ok("row-content", w, cm, "row i copied to offsets[i]")
                        good = True
                    else:
                        bad("row-content", w, cm, "row i is not stored at offsets[i]")
                        good = True
                else:
                    und = True
            else:
                und = True
        if not good:
            if und:
                res.notes.append("%s: %s undecided" % (f.short, cm))
            else:
                bad("row-content", None, cm, "the entries are never stored")
    for m, (cm, cn) in PAIR.items():
        res.count("members converted")
        room(cm, ("b", "*", ("k", 2), C.rows(m)), sizeof_(fields.get(cm)))
        ws = [w for w in C.W if C.member(w, C.c) == (cm, ELEM)]
        got = {0: [], 1: []}
        und = False
        for w in ws:
            tg = strip_casts(w.target) if w.target is not None else None
            if w.kind != "asgn" or tg["k"] not in ("idx", "opcall") or len(tg["c"]) != 2:
                und = True
                continue
            ix = C.poly(C.nt(tg["c"][1], w.node))
            vals = arms(fl, w.rhs, w.node)
            Ls = C.loops(w.node)
            rl = [L for L in Ls if C.crow(L)]
            if not rl:
                und = True
                continue
            i = ("v", rl[-1].var)
            slot = None
            for s in (0, 1):
                if ix == C.poly(("b", "+", ("b", "*", ("k", 2), i), ("k", s))):
                    slot = s
            if slot is None:
                jv = [a for mm in ix for a in mm if a != i and a[0] == "v"]
                if len(Ls) >= 2 and len(jv) == 1 and ix == C.poly(("b", "+", ("b", "*", ("k", 2), i), jv[0])):
                    und = True
                else:
                    bad("cells-of-face", w, cm, "stored neither at 2f nor at 2f+1")
                continue
            for t in vals:
                if t[0] == "k":
                    if not (slot == 1 and t[1] == -1):
                        bad("cells-of-face", w, cm, "the value for 'no second cell' is %s at slot %d, not -1 at slot 1" % (t[1], slot))
                    got[slot].append((w, "none"))
                elif t[0] == "x" and t[1][0] == "x" and t[1][1][0] == "m" and t[1][1][2] == m:
                    if C.norm(t[1][2], w.node) != i or C.norm(t[2], w.node) != ("k", slot):
                        bad("cells-of-face", w, cm, "slot %d of face f does not receive cell %d of face f" % (slot, slot))
                    got[slot].append((w, "cell"))
                else:
                    und = True
        if und:
            res.notes.append("%s: %s undecided" % (f.short, cm))
            continue
        for s in (0, 1):
            kinds = {k for _, k in got[s]}
            if "cell" not in kinds:
                bad("cells-of-face", None, cm, "slot %d never receives a cell" % s)
            elif s == 1 and "none" not in kinds:
                bad("cells-of-face", got[s][0][0], cm, "slot 1 of a face with one cell does not receive -1")
            else:
                ok("cells-of-face", got[s][0][0], cm, "slot %d" % s)
        for w, k in got[1]:
            x = strip_casts(w.rhs)
            if x["k"] == "cond":
                pol = polarity(fl, x["c"][0], w.node, m)
                arm1 = strip_casts(x["c"][1])
                if pol is not None and (const(arm1) == -1) == pol:
                    bad("cells-of-face", w, cm, "-1 is stored for faces with two cells")
    hull(C, res, bad, ok)


def unalloc(t, base):
    """the block just allocated for a member is the member"""
    if isinstance(t, tuple):
        if t[:2] in (("C", "malloc"), ("C", "calloc")):
            return base
        return tuple(unalloc(x, base) for x in t)
    return t


def partial(C, L):
    """the loop provably leaves out an element of what it runs over"""
    if L.full or L.var is None:
        return False
    if L.start is not None and L.start[0] == "k" and L.start[1] > 0:
        return True
    return False


def has(t, k):
    if not isinstance(t, tuple):
        return False
    if t and t[0] == k:
        return True
    return any(has(x, k) for x in t)


def vs(t, out=None):
    out = set() if out is None else out
    if isinstance(t, tuple):
        if t and t[0] == "v" and len(t) > 1 and isinstance(t[1], int):
            out.add(t[1])
        for x in t:
            vs(x, out)
    return out


def same(m):
    r = SAMESIZE.get(m, m)
    return [x for x in list(ROWS) + list(PAIR) + list(FLAT) if SAMESIZE.get(x, x) == r]


def arms(fl, e, n):
    x = strip_casts(e)
    if x["k"] == "cond":
        return arms(fl, x["c"][1], n) + arms(fl, x["c"][2], n)
    if x["k"] == "ref" and x.get("dk") in ("local", "param"):
        ds = fl.reaching(n, x["d"])
        if len(ds) > 1 and all(d.kind in ("init", "asgn") for d in ds):
            r = []
            for d in ds:
                r += arms(fl, d.e, d.node)
            return r
        if len(ds) == 1 and ds[0].kind in ("init", "asgn"):
            return arms(fl, ds[0].e, ds[0].node)
    return [term(fl, x, n)]


def polarity(fl, e, n, m):
    """True if the condition says that the face has two cells, False if it says one"""
    t = term(fl, e, n)
    if t[0] != "b":
        return None
    a, b = t[2], t[3]
    if b[0] == "k":
        a, b, o = a, b, t[1]
    elif a[0] == "k":
        a, b, o = b, a, {"<": ">", "<=": ">="}.get(t[1], t[1])
    else:
        return None
    if not (a[0] == "M" and a[1] == "size"):
        return None
    hit = {v for v in (1, 2) if {"==": v == b[1], "!=": v != b[1], "<": v < b[1], "<=": v <= b[1], ">": v > b[1], ">=": v >= b[1]}.get(o, False)}
    return True if hit == {2} else False if hit == {1} else None


def content(C, res, bad, ok, m, cm, need):
    """flat array: all elements copied"""
    fl = C.fl
    ws = [w for w in C.W if C.member(w, C.c) == (cm, ELEM)]
    good = und = False
    for w in ws:
        if w.kind == "algo:copy":
            c = w.e["c"]
            a, b = term(fl, c[0], w.node), term(fl, c[1], w.node)
            o = term(fl, c[2], w.node)
            if a[0] == "M" and b[0] == "M" and a[2][0] == "m" and a[2][1][:2] == ("v", C.x):
                if a[2][2] != m:
                    bad("whole-array", w, cm, "filled from %s instead of %s" % (a[2][2], m))
                elif a[1] not in ("begin", "cbegin") or b[1] not in ("end", "cend") or b[2] != a[2]:
                    bad("whole-array", w, cm, "not all elements of %s are copied" % m)
                elif not (o[0] == "m" and o[2] == cm):
                    bad("whole-array", w, cm, "not copied to the start of the array")
                elif not unconditional(C, w, m):
                    bad("whole-array", w, cm, "not copied on every path")
                else:
                    ok("whole-array", w, cm, "all of %s" % m)
                good = True
            else:
                und = True
        elif w.kind == "algo:memcpy":
            und = True
        elif w.kind == "asgn":
            v = term(fl, w.rhs, w.node)
            tg = strip_casts(w.target)
            if v[0] == "x" and v[1][0] == "m" and v[1][1][:2] == ("v", C.x) and tg["k"] in ("idx", "opcall") and len(tg["c"]) == 2:
                if v[1][2] != m:
                    bad("whole-array", w, cm, "filled from %s instead of %s" % (v[1][2], m))
                    good = True
                    continue
                ix = C.nt(tg["c"][1], w.node)
                Ls = C.loops(w.node)
                if C.peq(ix, C.norm(v[2], w.node)):
                    full = [L for L in Ls if L.full and L.var is not None and ("v", L.var) == ix and (
                        L.container == v[1][:1] + v[1][1:] or L.bound is not None and C.peq(C.norm(L.bound, L.bound_n), need))]
                    if len(Ls) == 1 and full and C.each(w.node, full[0]):
                        ok("whole-array", w, cm, "all of %s" % m)
                    elif len(Ls) == 1 and Ls[0].bound is not None and not full:
                        bad("whole-array", w, cm, "not all elements of %s are copied" % m)
                    else:
                        und = True
                        continue
                    good = True
                else:
                    bad("whole-array", w, cm, "element k is not stored at k")
                    good = True
            else:
                und = True
        else:
            und = True
    if not good:
        if und:
            res.notes.append("%s: %s undecided" % (C.f.short, cm))
        else:
            bad("whole-array", None, cm, "the array is never filled")


def unconditional(C, w, m):
    """executed on every path, or skipped only under a test of its own size"""
    if once(C, w):
        return True
    fl = C.fl
    ex = fl.cfg.exit.i
    for n in fl.cfg.livenodes():
        if n.kind == "cond" and n.e["k"] != "rangecond" and not C.pdom.get(n.i, 0) >> w.node.i & 1 and C.dom[w.node.i] >> n.i & 1:
            t = C.nt(n.e, n)
            if not (has_member(t, m)):
                return False
    return True


def has_member(t, m):
    if not isinstance(t, tuple):
        return False
    if t and t[0] == "m" and t[2] in same(m):
        return True
    return any(has_member(x, m) for x in t)


def hull(C, res, bad, ok):
    fl = C.fl
    for n in fl.cfg.livenodes():
        for e in fl.subexprs(n):
            if e["k"] == "call" and short(e.get("n", "")) == "fill_plc":
                t = [term(fl, x, n) for x in e["c"]]
                src = t[0]
                if src == ("m", ("v", C.x), "convexHull") and (C.member_of(t[1]) if hasattr(C, "member_of") else t[1][0] == "m" and t[1][2] == "convex_hull" or t[1][0] == "C" and t[1][1] == "polytope_plc_new" or t[1][0] == "v"):
                    res.ok("hull", C.inl.loc(e), "convex hull (%dD)" % C.dim)
                    res.count("members converted")
                else:
                    res.bad("hull", C.inl.loc(e), "convex_hull", "%s|hull" % C.f.short, "%s: the convex hull is not filled from t.convexHull [%s]" % (C.f.short, expr_str(e)))
            if e["k"] == "call" and e.get("n") == "polytope_plc_new":
                d = const(e["c"][0])
                res.check(d is None or d == C.dim, "hull", C.inl.loc(e), "hull dimension (%dD)" % C.dim, "%s|hulldim|%d" % (C.f.short, C.dim),
                          "%s: the convex hull is created with dimension %s for a %dD tessellation" % (C.f.short, d, C.dim))


def decode(C, res, fields):
    f, fl = C.f, C.fl
    D = C.dim
    Cm = lambda m: ("m", ("v", C.c), m)

    def bad(rule, w, member, why):
        loc = C.inl.loc(w.e) if w is not None else f.loc()
        res.bad(rule, loc, member, "%s|back|%s|%dd|%s" % (f.short, member, D, why), "%s (%dD, C to C++): %s: %s%s" % (
            f.short, D, member, why, " [%s]" % expr_str(w.e)[:100] if w is not None else ""))

    def ok(rule, w, member, what):
        res.ok(rule, C.inl.loc(w.e) if w is not None else f.loc(), "%s (%dD, C to C++): %s" % (member, D, what))
    allm = dict(FLAT)
    for m, (cm, cn, coords) in FLAT.items():
        res.count("members converted")
        per = ("k", D) if coords else ("k", 1)
        need = ("b", "*", per, Cm(cn))
        ws = [w for w in C.W if C.member(w, C.x) in ((m,), (m, ELEM))]
        if not ws:
            bad("whole-array", None, m, "never filled from %s" % cm)
            continue
        sized = False
        good = und = False
        for w in ws:
            mem = C.member(w, C.x)
            if mem == (m,) and w.kind in ("mut:resize", "mut:reserve"):
                if w.kind == "mut:resize":
                    r = C.nt(w.rhs, w.node)
                    if C.peq(r, C.norm(need, w.node)):
                        ok("whole-array", w, m, "resized to %s" % expr_str(w.e["c"][1]))
                    else:
                        bad("whole-array", w, m, "resized to something else than the number of elements (%s)" % cn)
                    sized = True
            elif w.kind == "algo:copy" or w.kind in ("mut:assign", "mut:insert") or mem == (m,) and w.kind == "asgn":
                c = w.e["c"]
                a, b = (c[0], c[1]) if w.kind == "algo:copy" else (c[1], c[2]) if w.kind == "mut:assign" and len(c) == 3 else (None, None)
                if a is None:
                    und = True
                    continue
                ta, tb = C.nt(a, w.node), C.nt(b, w.node)
                if ta[0] == "m" and ta[1][:2] == ("v", C.c) and ta[2] != cm:
                    bad("whole-array", w, m, "filled from %s instead of %s" % (ta[2], cm))
                    good = True
                elif C.peq(ta, Cm(cm)):
                    if C.peq(("b", "-", tb, ta), C.norm(need, w.node)):
                        ok("whole-array", w, m, "all of %s" % cm)
                    else:
                        bad("whole-array", w, m, "not exactly the elements of %s are copied" % cm)
                    good = True
                else:
                    bad("whole-array", w, m, "not copied from the start of %s" % cm)
                    good = True
            elif w.kind == "asgn" and mem == (m, ELEM):
                v = C.nt(w.rhs, w.node)
                tg = strip_casts(w.target)
                if v[0] == "x" and v[1][0] == "m" and tg["k"] in ("idx", "opcall") and len(tg["c"]) == 2:
                    if v[1][2] != cm:
                        bad("whole-array", w, m, "filled from %s instead of %s" % (v[1][2], cm))
                    elif not C.peq(v[2], C.nt(tg["c"][1], w.node)):
                        bad("whole-array", w, m, "element k is not stored at k")
                    good = True
                else:
                    und = True
            else:
                und = True
        if not good:
            if und:
                res.notes.append("%s: %s undecided" % (f.short, m))
            else:
                bad("whole-array", None, m, "never filled from %s" % cm)
    for m, (cm, off, cn) in ROWS.items():
        res.count("members converted")
        rows(C, res, bad, ok, m, cm, off, cn)
    for m, (cm, cn) in PAIR.items():
        res.count("members converted")
        pairs(C, res, bad, ok, m, cm, cn)


def resized(C, bad, ok, m, need, label):
    ws = C.sizes.get(m, [])
    if not ws:
        gr = [w for w in C.W if C.member(w, C.x) == (m,)]
        if not gr:
            bad("row-content", None, m, "the list is never given its number of rows")
            return None
        return None
    for w in ws:
        r = C.norm(term(C.fl, w.rhs, w.node), w.node)
        if C.peq(r, C.norm(need, w.node)):
            ok("row-content", w, m, "%s rows" % label)
        else:
            bad("row-content", w, m, "the number of rows is not %s" % label)
    return True


def rows(C, res, bad, ok, m, cm, off, cn):
    fl = C.fl
    Cm = lambda x: ("m", ("v", C.c), x)
    resized(C, bad, ok, m, Cm(cn), cn)
    ws = [w for w in C.W if (C.member(w, C.x) or ())[:2] == (m, ELEM)]
    if not ws:
        bad("row-content", None, m, "never filled from %s" % cm)
        return
    und = good = False
    for w in ws:
        mem = C.member(w, C.x)
        o = w.e["c"][0] if w.kind.startswith("mut:") else w.target
        i = rowindex(C, o, w.node, m)
        if i is None:
            und = True
            continue
        Ls = C.loops(w.node)
        if not any(C.crow(L) and C.crow(L)[0].lstrip("=") in same(m) and ("v", L.var) == i for L in Ls):
            # iterating all rows, but not with a recognised full loop
            part = [L for L in Ls if L.var is not None and ("v", L.var) == i]
            if part and part[0].bound is not None:
                bad("row-content", w, m, "not every row is converted")
            und = True
            continue
        lo = ("x", Cm(off), i)
        hi = ("x", Cm(off), tidy(("b", "+", i, ("k", 1))))
        if mem == (m, ELEM) and w.kind == "mut:resize":
            r = C.norm(term(fl, w.rhs, w.node), w.node)
            if polyx(C, r) == polyx(C, ("b", "-", hi, lo)):
                ok("row-content", w, m, "row i has offsets[i+1]-offsets[i] entries")
            else:
                bad("row-content", w, m, "row i is not given offsets[i+1]-offsets[i] entries")
        elif mem == (m, ELEM, ELEM) and w.kind == "asgn":
            v = C.norm(term(fl, w.rhs, w.node), w.node)
            tg = strip_casts(w.target)
            if not (v[0] == "x" and v[1][0] == "m"):
                und = True
                continue
            good = True
            if v[1][2] != cm:
                bad("row-content", w, m, "filled from %s instead of %s" % (v[1][2], cm))
                continue
            j = C.nt(tg["c"][1], w.node)
            if polyx(C, v[2]) != polyx(C, ("b", "+", lo, j)):
                bad("row-content", w, m, "entry j of row i is not read at offsets[i]+j")
                continue
            Lj = Ls[-1]
            b = C.norm(Lj.bound, Lj.bound_n) if Lj.bound is not None else None
            if Lj.full and ("v", Lj.var) == j and C.each(w.node, Lj) and b is not None and polyx(C, b) == polyx(C, ("b", "-", hi, lo)):
                ok("row-content", w, m, "entry j of row i read at offsets[i]+j")
            elif Lj.full and ("v", Lj.var) == j and C.rowof(Lj):
                ok("row-content", w, m, "entry j of row i read at offsets[i]+j")
            else:
                bad("row-content", w, m, "not exactly the entries offsets[i]..offsets[i+1] are read")
        elif w.kind in ("algo:copy", "mut:assign", "mut:insert"):
            c = w.e["c"]
            a, b = (c[0], c[1]) if w.kind == "algo:copy" else (c[1], c[2]) if w.kind == "mut:assign" and len(c) == 3 else (None, None)
            if a is None:
                und = True
                continue
            good = True
            ta, tb = C.nt(a, w.node), C.nt(b, w.node)
            if polyx(C, ta) == polyx(C, ("b", "+", Cm(cm), lo)) and polyx(C, tb) == polyx(C, ("b", "+", Cm(cm), hi)):
                ok("row-content", w, m, "row i = content[offsets[i]..offsets[i+1])")
            else:
                bad("row-content", w, m, "not exactly the entries offsets[i]..offsets[i+1] of %s are read" % cm)
        else:
            und = True
    if not good:
        if und:
            res.notes.append("%s: %s (back) undecided" % (C.f.short, m))
        else:
            bad("row-content", None, m, "never filled from %s" % cm)


def tidy(t):
    return t


def polyx(C, t):
    """polynomial in which subscripts are polynomials too"""
    def cv(t):
        if not isinstance(t, tuple):
            return t
        if t[0] == "x":
            return ("x", cv(t[1]), tuple(sorted(((k, v) for k, v in C.poly(cv(t[2])).items()), key=repr)))
        return tuple(cv(x) for x in t)
    return C.poly(cv(t))


def rowindex(C, o, n, m):
    """index term of the row an expression denotes"""
    x = strip_casts(o)
    while x is not None:
        t = C.norm(term(C.fl, x, n), n)
        while t[0] in ("x", "M"):
            if t[0] == "x" and t[1] == ("m", ("v", C.x), m):
                return t[2]
            t = t[1] if t[0] == "x" else t[2]
        return None
    return None


def pairs(C, res, bad, ok, m, cm, cn):
    fl = C.fl
    Cm = lambda x: ("m", ("v", C.c), x)
    resized(C, bad, ok, m, Cm(cn), cn)
    ws = [w for w in C.W if (C.member(w, C.x) or ())[:2] == (m, ELEM)]
    if not ws:
        bad("cells-of-face", None, m, "never filled from %s" % cm)
        return
    und = good = False
    for w in ws:
        mem = C.member(w, C.x)
        o = w.e["c"][0] if w.kind.startswith("mut:") else w.target
        i = rowindex(C, o, w.node, m)
        if i is None:
            und = True
            continue
        second = polyx(C, ("x", Cm(cm), ("b", "+", ("b", "*", ("k", 2), i), ("k", 1))))
        if w.kind == "mut:resize" and mem == (m, ELEM):
            r = C.norm(term(fl, w.rhs, w.node), w.node)
            if r[0] == "?" and r[2][0] == "k" and r[3][0] == "k":
                c = r[1]
                if c[0] == "b" and c[1] in ("==", "!="):
                    a, b = (c[2], c[3]) if c[3][0] == "k" else (c[3], c[2])
                    two = r[2] if c[1] == "!=" else r[3]
                    one = r[3] if c[1] == "!=" else r[2]
                    if b == ("k", -1) and polyx(C, a) == second and two == ("k", 2) and one == ("k", 1):
                        ok("cells-of-face", w, m, "two cells unless the second is -1")
                        good = True
                        continue
                    bad("cells-of-face", w, m, "the number of cells of a face is not decided by the second entry being -1")
                    good = True
                    continue
                if c[0] == "b" and c[1] in ("<", "<=", ">", ">=") and second in (polyx(C, c[2]), polyx(C, c[3])):
                    # a signed second cell may be a complement (negative)
                    bad("cells-of-face", w, m, "the number of cells of a face is decided by the sign of the second entry, which is negative for every complemented cell")
                    good = True
                    continue
            und = True
        elif mem == (m, ELEM, ELEM) and w.kind == "asgn":
            v = C.norm(term(fl, w.rhs, w.node), w.node)
            j = C.nt(strip_casts(w.target)["c"][1], w.node)
            if v[0] == "x" and v[1][0] == "m":
                good = True
                if v[1][2] != cm:
                    bad("cells-of-face", w, m, "filled from %s instead of %s" % (v[1][2], cm))
                elif polyx(C, v[2]) != polyx(C, ("b", "+", ("b", "*", ("k", 2), i), j)):
                    bad("cells-of-face", w, m, "cell j of face f is not read at 2f+j")
                else:
                    ok("cells-of-face", w, m, "cell j of face f read at 2f+j")
            else:
                und = True
        elif w.kind == "mut:push_back":
            v = C.norm(term(fl, w.rhs, w.node), w.node)
            if v[0] == "x" and v[1] == Cm(cm):
                good = True
                px = polyx(C, v)
                if px != second and px != polyx(C, ("x", Cm(cm), ("b", "*", ("k", 2), i))):
                    bad("cells-of-face", w, m, "read neither at 2f nor at 2f+1")
            else:
                und = True
        else:
            und = True
    if und and not good:
        res.notes.append("%s: %s (back) undecided" % (C.f.short, m))


def plcs(prog, res):
    """fill_plc: both members, between objects of the same dimension"""
    for f in prog.funcs.values():
        if f.body is None or "polytope_c/" not in f.rel or len(f.params) != 2:
            continue
        ts = [p["t"] for p in f.params]
        xi = [i for i, t in enumerate(ts) if re.search(r"\bPLC<", t)]
        ci = [i for i, t in enumerate(ts) if "polytope_plc_t" in t]
        if len(xi) != 1 or len(ci) != 1:
            continue
        res.count("conversions")
        D = dim_of(ts[xi[0]])
        inl = Inliner(prog, lambda t, n: "polytope_c/" in t.rel, maxdepth=4).run(f)
        fl = Flow(inl, CFG(inl.body))
        dom = fl.cfg.dominators()
        toC = ts[xi[0]].startswith("const")
        done = {}
        for n in fl.cfg.livenodes():
            for e in fl.subexprs(n):
                lhs = rhs = None
                if e["k"] in ("asgn", "opcall") and e.get("o") == "=" and len(e["c"]) == 2:
                    lhs, rhs = e["c"]
                elif e["k"] == "mcall" and e.get("mn") == "assign":
                    lhs, rhs = e["c"][0], e["c"][1]
                if lhs is None:
                    continue
                a, b = term(fl, lhs, n), term(fl, rhs, n)
                while b[0] == "M" and b[1] in ("begin", "cbegin"):
                    b = b[2]
                whole = lambda t: {"facets", "holes"}
                # *plc2 = plc copies both
                def memb(t):
                    return t[2] if t[0] == "m" and t[2] in ("facets", "holes") else None
                ml, mr = memb(a), memb(b)
                if ml is None and mr is None:
                    if "PLC<" in (lhs.get("t") or "") and e["k"] == "opcall":
                        done["facets"] = done["holes"] = n
                        res.ok("plc-members", inl.loc(e), "whole PLC (%dD)" % D)
                    continue
                res.count("members converted")
                cl = strip_casts(lhs)
                dl, dr = dim_of(member_cls(lhs)), dim_of(member_cls(rhs))
                if ml != mr:
                    res.bad("plc-members", inl.loc(e), ml or "?", "%s|%s|%d" % (f.short, ml, toC), "%s (%dD): %s is filled from %s" % (f.short, D, ml, mr))
                elif dl != D or dr != D:
                    res.bad("plc-members", inl.loc(e), ml, "%s|%s|%d|dim" % (f.short, ml, toC), "%s (%dD): %s is copied between a %sD and a %sD PLC" % (f.short, D, ml, dr, dl))
                else:
                    res.ok("plc-members", inl.loc(e), "%s (%dD)" % (ml, D))
                    done[ml] = n
        for m in ("facets", "holes"):
            n = done.get(m)
            res.check(n is not None and dom[fl.cfg.exit.i] >> n.i & 1, "plc-members", f.loc(), "%s copied (%dD)" % (m, D), "%s|%s|%d|missing|%d" % (f.short, m, toC, D),
                      "%s (%dD): %s is not copied on every path" % (f.short, D, m))


def member_cls(e):
    x = strip_casts(e)
    while x is not None and x["k"] in ("mcall", "idx", "opcall"):
        x = strip_casts(x["c"][0])
    if x is not None and x["k"] == "mem":
        return x.get("cls") or (x["c"][0].get("t") if x.get("c") else "")
    return ""


def entries(prog, res):
    """C entry points that call a tessellator, and the two arms of every dispatch on the dimension"""
    for f in prog.funcs.values():
        if f.body is None or "polytope_c/" not in f.rel:
            continue
        calls = [x for x in f.nodes() if x["k"] == "mcall" and x.get("mn") == "tessellate" and "Tessellator" in (x.get("n") or "")]
        if calls:
            entry(prog, res, f)
        arms_agree(prog, res, f)


def entry(prog, res, f):
    res.count("entry points")
    inl = Inliner(prog, lambda t, n: "polytope_c/" in t.rel and short(t.name) not in ("fill_plc", "fill_tessellation") and not t.name.startswith("polytope_"), maxdepth=4).run(f)
    fl = Flow(inl, CFG(inl.body))
    order = {p["d"]: k for k, p in enumerate(inl.params)}
    names = {p["d"]: p["n"] for p in inl.params}
    cov = 0
    for n in fl.cfg.livenodes():
        for e in fl.subexprs(n):
            if not (e["k"] == "mcall" and e.get("mn") == "tessellate"):
                continue
            D = dim_of(e.get("n") or "") or dim_of(e.get("cls") or "")
            used = []
            outp = None
            ok = True
            for a in e["c"][1:]:
                x = strip_casts(a)
                t = bare(x.get("t"))
                if x["k"] == "ref" and "vector<" in t[:14 + 5]:
                    for d in fl.by_local.get(x["d"], []):
                        if d.kind not in ("init",) or d.e is None:
                            continue
                        cs = [y for y in (d.e.get("c") or [])]
                        cs = cs[:2]
                        if len(cs) != 2:
                            continue
                        ta, tb = term(fl, cs[0], d.node), term(fl, cs[1], d.node)
                        pv = ta[1] if ta[0] == "v" else None
                        diff = poly(("b", "-", tb, ta))
                        if pv in order and len(diff) == 1:
                            (mono, c), = diff.items()
                            cnt = mono[0][1] if len(mono) == 1 and mono[0][0] == "v" else None
                            if cnt in order:
                                good = c == D and order[cnt] == order[pv] + 1
                                res.check(good, "caller-arrays", inl.loc(d.v or e), "%s: %s" % (f.short, names[pv]), "%s|%s|%d" % (f.short, names[pv], D),
                                          "%s: the %dD tessellator is given %s values of '%s' per '%s'" % (f.short, D, c, names[pv], names[cnt]))
                                used.append(order[pv])
                                continue
                        res.notes.append("%s: vector argument %s undecided" % (f.short, x.get("n")))
                elif x["k"] == "ref" and x["d"] in order:
                    used.append(order[x["d"]])
                elif x["k"] == "ref" and "PLC<" in t:
                    src = None
                    for m in fl.cfg.livenodes():
                        for y in fl.subexprs(m):
                            if y["k"] == "call" and short(y.get("n", "")) == "fill_plc" and len(y["c"]) == 2:
                                z = strip_casts(y["c"][1])
                                if z["k"] == "ref" and z.get("d") == x["d"]:
                                    s = strip_casts(y["c"][0])
                                    src = order.get(s.get("d"))
                                    before = fl.cfg.dominators()[n.i] >> m.i & 1
                                    res.check(before, "caller-arrays", inl.loc(y), "%s: plc" % f.short, "%s|plc|%d" % (f.short, D), "%s: the PLC is used before it is filled" % f.short)
                    if src is None:
                        res.bad("caller-arrays", inl.loc(e), "plc", "%s|plcsrc|%d" % (f.short, D), "%s (%dD): the PLC handed to the tessellator is never filled from the caller's" % (f.short, D))
                    else:
                        used.append(src)
                elif x["k"] == "ref" and "Tessellation<" in t:
                    outp = x["d"]
            res.check(used == sorted(used) and len(set(used)) == len(used), "caller-arrays", inl.loc(e), "%s (%dD): argument order" % (f.short, D),
                      "%s|order|%d" % (f.short, D), "%s (%dD): the caller's arguments reach the tessellator in a different order or twice [%s]" % (f.short, D, expr_str(e)))
            # every data parameter is used
            need = {k for p, k in ((p["d"], k) for k, p in enumerate(inl.params)) if is_ptr(inl.params[k]["t"]) and "tessellat" not in inl.params[k]["t"]}
            res.check(need <= set(used), "caller-arrays", inl.loc(e), "%s (%dD): all arrays passed on" % (f.short, D), "%s|all|%d" % (f.short, D),
                      "%s (%dD): %s of the caller %s not passed to the tessellator" % (f.short, D, ", ".join(inl.params[k]["n"] for k in sorted(need - set(used))), "are" if len(need - set(used)) > 1 else "is"))
            # result handed back
            back = False
            if outp is not None:
                dom = fl.cfg.dominators()
                pd = fl.cfg.dominators(post=True)
                for m in fl.cfg.livenodes():
                    for y in fl.subexprs(m):
                        if y["k"] == "call" and short(y.get("n", "")) == "fill_tessellation" and len(y["c"]) == 2:
                            s, z = strip_casts(y["c"][0]), strip_casts(y["c"][1])
                            if s.get("d") == outp and z.get("d") in order and dom[m.i] >> n.i & 1 and pd[n.i] >> m.i & 1:
                                back = True
            res.check(back, "result-returned", inl.loc(e), "%s (%dD)" % (f.short, D), "%s|back|%d" % (f.short, D),
                      "%s (%dD): the tessellation computed is not what fills the caller's struct on every path" % (f.short, D))
            cov += 1
    res.count("tessellator calls", cov)


TWIN = [("plc2", "plc3"), ("tess2", "tess3")]


def arms_agree(prog, res, f):
    """choices made by testing plc2/tess2 do the same in both arms, for the other dimension"""
    def fields(x):
        return {y["n"] for y in walk(x) if y["k"] == "mem" and y["n"] in ("plc2", "plc3", "tess2", "tess3")}

    def sig(x):
        out = []
        for y in walk(x):
            k = y["k"]
            if k == "mem" and y["n"] not in ("plc2", "plc3", "tess2", "tess3"):
                out.append("." + y["n"])
            elif k in ("call", "mcall") and y.get("n"):
                out.append("(" + re.sub(r"<.*>", "", y.get("mn") or short(y["n"])))
            elif k == "opcall":
                out.append("o" + y["o"])
            elif k == "delete":
                out.append("delete")
            elif k == "ref" and y.get("dk") == "param":
                out.append("p" + str(y.get("n")))
        return sorted(out)

    for x in f.nodes():
        if x["k"] == "cond":
            c, a, b = x["c"]
        elif x["k"] == "if" and len(x["c"]) > 2 and x["c"][2] is not None:
            c, a, b = x["c"][:3]
        else:
            continue
        if not fields(c):
            continue
        fa, fb = fields(a), fields(b)
        if not fa and not fb:
            continue
        res.count("dimension choices")
        pol = strip_casts(c)
        neg = False
        while pol["k"] == "un" and pol["o"] == "!":
            neg, pol = not neg, strip_casts(pol["c"][0])
        if pol["k"] == "bin" and pol["o"] == "==":
            neg = not neg
        tested = fields(c)
        if len(tested) == 1:
            tst = tested.pop()
            oth = tst[:-1] + ("3" if tst[-1] == "2" else "2")
            yes, no = (b, a) if neg else (a, b)
            fy, fn = fields(yes), fields(no)
            res.check(not (fy - {tst}) and not (fn - {oth}), "both-dimensions", f.loc(x), f.short, "%s|pick" % f.short,
                      "%s: the branch in which %s is set uses %s, the other one %s" % (f.short, tst, ", ".join(sorted(fy)) or "neither", ", ".join(sorted(fn)) or "neither"))
        res.check(sig(a) == sig(b), "both-dimensions", f.loc(x), f.short, "%s|same|%s" % (f.short, "/".join(sorted(set(sig(a)) ^ set(sig(b))))),
                  "%s: the 2D and the 3D branch do different things (%s)" % (f.short, ", ".join(sorted(set(sig(a)) ^ set(sig(b)))) or "in number"))
