"""When an operation drops or renumbers nodes, faces or cells of a mesh, every list
of the mesh that holds their numbers is brought to the new numbering in the same
operation, and elements are numbered in the order in which they are kept.

Rule: a renumbering is the replacement of a mesh's node, face or cell list by one
built from its own elements.  On every path through it, each dependent list
(faces, cells, faceCells, boundaryNodes, boundaryFaces, sharedNodes, sharedFaces) of
the same mesh must be replaced, rewritten element by element over its full length,
recomputed or cleared.  The selection that keeps an element and the selection that
advances the new number must test the same mask with the same outcome, in loops
over the same range, and the number given out is the one before the advance."""
from ..effects import loop_info, peq, writes
from ..flow import ELEM, Flow, bare, deref_local, is_ref
from ..ir import const, expr_str, short, strip_casts, walk
from ..kinds import QUANT, TESS, Infer, seeds_for
from .. import mpi
from .c03 import Ctl
from .c07 import touching

ASSUMES = ["masks hold only 0 and 1 (their documented values)"]
DEPS = {
    "Tessellation": {"nodes": ("faces", "boundaryNodes", "sharedNodes"),
                     "faces": ("cells", "boundaryFaces", "sharedFaces", "faceCells"),
                     "cells": ("faceCells", "convexHull")},
    "QuantizedTessellation2d": {"nodes": ("edges",), "edges": ("cellEdges",)},
}
KIND = {"nodes": "node", "faces": "face", "cells": "cell", "edges": "face", "cellEdges": "cell"}
EDITS = {"erase", "insert", "pop_back", "emplace"}


def sources(fl, e, n):
    """places whose values flow into the list expression e (through local lists)"""
    out, seen, st = set(), set(), []
    by = {}
    for m in fl.cfg.livenodes():
        for w in writes(fl, m):
            for p in w.places:
                if p[0][0] == "L":
                    by.setdefault(p[0], []).append((w, m))

    def expr(x, m):
        for y in walk(x):
            if y["k"] in ("ref", "mem", "idx", "opcall", "mcall"):
                for p in fl.lv(y, m) or ():
                    place(p)
                if y["k"] == "mcall" and (y.get("mn") or "") in ("begin", "end", "cbegin", "cend"):
                    for p in fl.obj(y, m):
                        place(p)

    def place(p):
        out.add(p)
        r = p[0]
        if r[0] == "L" and r not in seen:
            seen.add(r)
            st.append(r)

    expr(e, n)
    while st:
        r = st.pop()
        for w, m in by.get(r, []):
            if w.kind.startswith("mut:") and w.kind[4:] in ("resize", "reserve", "clear"):
                continue
            for a in (w.e.get("c") or []):
                expr(a, m)
        for d in fl.by_local.get(r[1], []):
            if d.e is not None and d.kind in ("init", "asgn", "range"):
                expr(d.e, d.node)
    return out


class Unit:
    def __init__(self, prog, f, inl):
        self.prog, self.f = prog, f
        self.I = Infer(prog, inl)
        self.fl = self.I.fl
        self.cfg = self.fl.cfg
        self.inl = inl
        self.ctl = Ctl(self.fl)
        self.events = []
        self.find()

    def find(self):
        I, fl = self.I, self.fl
        for n in self.cfg.livenodes():
            for w in writes(fl, n):
                for p in w.places:
                    m = I._meshfield(p)
                    if not m or len(p) != m[1]:
                        continue
                    base, fd = p[:m[1] - 1], m[0]
                    cls = I.root_cls(p[0]) if m[1] == 2 else I._cls_at(p, m[1] - 1)
                    deps = DEPS.get(bare(cls).split("<")[0].split("::")[-1].strip(), {}).get(fd)
                    if not deps:
                        continue
                    if w.kind.startswith("mut:") and w.kind[4:] in EDITS:
                        self.events.append((n, w, base, fd, deps, None))
                    elif w.kind in ("asgn", "mut:swap"):
                        src = [x for x in (w.e.get("c") or [])]
                        S = set()
                        for x in src:
                            if set(fl.lv(x, n)) & {p}:
                                continue
                            S |= sources(fl, x, n)
                        if any(q[:len(p)] == p for q in S):
                            self.events.append((n, w, base, fd, deps, S))

    # ------------------------------------------------------------- coverage
    def updates(self, base, fd):
        """(node standing for the update, update node, write)"""
        out = []
        fl = self.fl
        tgt = base + (fd,)
        for n in self.cfg.livenodes():
            for w in writes(fl, n):
                for p in w.places:
                    if p[:len(tgt)] != tgt:
                        continue
                    k = w.kind
                    if k in ("mut:reserve", "mut:sort"):
                        continue
                    if len(p) == len(tgt):
                        if k in ("asgn", "mut:swap", "mut:clear", "mut:assign", "mut:resize") or k.startswith("byref:") or k.startswith("algo:"):
                            out.append((n, w, True))
                    elif k in ("asgn", "mut:swap", "mut:clear", "mut:assign") or k.startswith(("byref:", "algo:")):
                        out.append((n, w, False))
        # a range loop through a reference rewrites elements: handled by places
        return out

    def missing(self, ev):
        """dependent lists not updated on every path through the event -> [(field, why)]"""
        n, w, base, fd, deps, S = ev
        res = []
        for d in deps:
            stand, why = set(), None
            for u, uw, whole in self.updates(base, d):
                if u is n:
                    stand.add(u.i)
                    continue
                s = u
                loops = [L for L in u.loops if not any(L is x for x in n.loops)]
                if loops:
                    L = loop_info(self.fl, loops[0])
                    if not whole:
                        if L.var is not None and not L.full and L.why in ("does not start at 0", "does not start at the first element", "left early", "step is not one element at a time"):
                            why = "the loop at %s that renumbers it %s" % (self.inl.loc(loops[0]), L.why)
                            continue
                        # inside the list loop the entry must be replaced unconditionally
                        if uw.kind == "asgn" and not self.I._every(u, loops[0]) and len(loops) == 1:
                            why = "at %s only some entries are renumbered" % self.inl.loc(uw.e)
                            continue
                    if L.head is not None:
                        s = L.head
                stand.add(s.i)
            if not self.through(n, stand):
                res.append((d, why))
        return res

    def through(self, n, stand):
        """every path entry -> n -> exit passes one of stand"""
        if n.i in stand:
            return True
        if not stand:
            return False

        def reach(start, goal, back):
            seen, st = set(), [start]
            while st:
                x = st.pop()
                if x.i in seen or (x.i in stand and x is not start):
                    continue
                seen.add(x.i)
                if x is goal:
                    return True
                st.extend(p for p, _ in (x.pred if back else x.succ))
            return False
        return not (reach(n, self.cfg.entry, True) and reach(n, self.cfg.exit, False))

    # ------------------------------------------------------------ selection
    def norm(self, c, labs):
        """(mask places, polarity) of a condition outcome, or None"""
        lab = labs[0] if len(labs) == 1 else None
        if lab not in (True, False):
            return None
        e, pol, n = strip_casts(c.e), lab, c
        for _ in range(8):
            if e["k"] == "un" and e["o"] in ("!", "not"):
                e, pol = strip_casts(e["c"][0]), not pol
                continue
            if e["k"] == "bin" and e["o"] in ("==", "!=", ">", "<", ">=", "<="):
                a, b, o = e["c"][0], e["c"][1], e["o"]
                if const(a) is not None:
                    a, b = b, a
                    o = {">": "<", "<": ">", ">=": "<=", "<=": ">="}.get(o, o)
                v = const(b)
                if v is None:
                    return None
                t = {("==", 1): True, ("==", 0): False, ("!=", 0): True, ("!=", 1): False, (">", 0): True, ("<", 1): False, (">=", 1): True, ("<=", 0): False}.get((o, v))
                if t is None:
                    return None
                e, pol = strip_casts(a), pol if t else not pol
                continue
            d = deref_local(e)
            if d is not None and not is_ref(self.fl.tname(d)):
                ds = self.fl.reaching(n, d)
                if len(ds) == 1 and ds[0].kind in ("init", "asgn") and ds[0].e is not None:
                    e, n = strip_casts(ds[0].e), ds[0].node
                    continue
            break
        ps = self.fl.lv(e, n)
        if ps and all(p[-1] == ELEM for p in ps):
            return (frozenset(ps), pol)
        return None

    def selection(self, n):
        """set of normal forms under which n runs in its innermost loop; None if not understood"""
        out = set()
        if not n.loops:
            return None
        h = loop_info(self.fl, n.loops[-1]).head
        conds = {h.i} if h is not None else set()
        from ..effects import loop_conds
        conds |= set(loop_conds(self.fl, n.loops[-1]))
        for c, labs in self.ctl.controllers(n):
            if c.i in conds:
                continue
            x = self.norm(c, labs)
            if x is None:
                return None
            out.add(x)
        return out

    def span(self, s):
        L = loop_info(self.fl, s)
        if L.step != 1 and s["k"] != "forrange":
            return None
        if s["k"] == "forrange":
            return ("full",)
        if L.bound is None or L.start is None:
            return None
        return L

    def order(self, ev, res):
        """agreement of the kept elements with the new numbers"""
        n, w, base, fd, deps, S = ev
        I, fl = self.I, self.fl
        K = KIND[fd]
        tv = I.prime.get(K)
        kind = tv.find().kind if tv is not None else None
        ds = [d for d, t in I.counter.items() if kind and t.find().kind == kind and t.find() is not None and "new number counted by " + fl.vname(d) == kind]
        if len(ds) != 1:
            return
        d = ds[0]
        # where elements are kept: appends to the list that replaces the old one
        roots = {p[:1] for x in (w.e.get("c") or []) for p in fl.lv(x, n) if p[0][0] == "L" and len(p) == 1}
        keeps = []
        for m in self.cfg.livenodes():
            for u in writes(fl, m):
                if not m.loops:
                    continue
                if any(p in roots for p in u.places) and u.kind in ("mut:push_back", "mut:emplace_back", "mut:insert") or \
                        u.kind.startswith("algo:") and any(p[:1] in roots and len(p) <= 2 for p in u.places):
                    keeps.append((m, u))
        ups = [x for x in fl.by_local.get(d, []) if x.kind == "upd" and x.node.loops]
        for x in ups:
            e = x.e
            if e["o"] == "+=" and const(e["c"][1]) is None:
                s = self.fl.lv(strip_casts(e["c"][1]), x.node)
                usel = {(frozenset(s), True)} if s and all(p[-1] == ELEM for p in s) else None
                base_sel = self.selection(x.node)
                usel = None if usel is None or base_sel is None else usel | base_sel
            elif e["o"] in ("++", "+="):
                usel = self.selection(x.node)
            else:
                usel = None
            for m, u in keeps:
                ksel = self.selection(m)
                what = "%s kept at %s, numbered at %s" % (K, self.inl.loc(u.e), self.inl.loc(e))
                key = "%s|%s|%s" % (short(self.f.name), fd, fl.vname(d))
                if usel is None or ksel is None:
                    res.notes.append("selection not understood: " + what)
                    res.count("undecided selections")
                    continue
                res.count("selections compared")
                res.check(usel == ksel, "kept-elements-are-those-numbered", self.inl.loc(u.e), what, key,
                          "%s numbers: an element is kept when %s but the new number advances when %s" % (K, self.show(ksel), self.show(usel)))
                a, b = self.span(m.loops[-1]), self.span(x.node.loops[-1])
                if a is None or b is None or isinstance(a, tuple) or isinstance(b, tuple):
                    continue
                same = peq(a.start, b.start) and peq(a.bound, b.bound)
                if not same and not (a.container is not None and a.container == b.container and a.full and b.full):
                    if a.start[0] == "k" and b.start[0] == "k" and a.start != b.start:
                        res.bad("kept-elements-are-those-numbered", self.inl.loc(u.e), what, key + "|range",
                                "%s numbers are given out from element %s on, but elements are kept from element %s on" % (K, b.start[1], a.start[1]))
        # the number handed out is the one before the advance, starting at 0
        starts = [x for x in fl.by_local.get(d, []) if x.kind in ("init", "asgn")]
        z = {const(x.e) for x in starts if x.e is not None}
        if z != {0}:
            return
        for m in self.cfg.livenodes():
            for u in writes(fl, m):
                if u.kind != "asgn" or u.rhs is None or not m.loops:
                    continue
                r = strip_casts(u.rhs)
                what = "number handed out at %s" % self.inl.loc(u.e)
                key = "%s|%s|%s" % (short(self.f.name), fd, expr_str(u.e))
                if r["k"] == "un" and r["o"] in ("++", "--") and deref_local(r["c"][0]) == d:
                    res.count("numbers handed out")
                    res.check(r.get("post"), "number-before-advance", self.inl.loc(u.e), what, key, "new %s numbers start at 1: '%s' advances before the number is handed out" % (K, expr_str(r)))
                elif deref_local(r) == d:
                    res.count("numbers handed out")
                    # no advance of the same iteration may come before
                    L = loop_info(fl, m.loops[-1])
                    bad = False
                    for x in ups:
                        seen, st = set(), [y for y, _ in x.node.succ]
                        while st:
                            y = st.pop()
                            if y.i in seen or (L.head is not None and y is L.head):
                                continue
                            if y is m:
                                bad = True
                                break
                            seen.add(y.i)
                            st.extend(q for q, _ in y.succ)
                    res.check(not bad, "number-before-advance", self.inl.loc(u.e), what, key, "'%s' hands out the new %s number after it was advanced for the same element" % (expr_str(u.e), K))

    def show(self, sel):
        return " and ".join(sorted("%s is %s" % ("/".join(sorted(self.fl.show(p) for p in ps)), "set" if pol else "not set") for ps, pol in sel)) or "always"


def run(prog, res, tier):
    direct = touching(prog)
    hit = mpi.closure(prog, direct)
    cg = prog.callgraph()
    units = {}

    def unit(key):
        if key not in units:
            units[key] = Unit(prog, prog.funcs[key], mpi.inline_for(prog, key, hit))
        return units[key]
    # candidate functions: those that replace or edit a primary list themselves
    cand = []
    for key in sorted(direct):
        f = prog.funcs[key]
        inl = mpi.inline_for(prog, key, hit)
        if not any(x["k"] == "mem" and x["n"] in KIND and seeds_for(x.get("cls") or "") in (TESS, QUANT) for x in f.nodes()):
            continue
        u = unit(key)
        if u.events:
            cand.append(key)
    # keep the innermost functions: skip one whose events all come from inlined candidates
    todo, level, done = list(cand), 0, set()
    inner = [k for k in cand if not any(j != k and j in units[k].inl.inlined for j in cand)]
    todo = inner
    while todo and level < 6:
        level += 1
        nxt = []
        for k in todo:
            if k in done:
                continue
            done.add(k)
            u = unit(k)
            miss = [(ev, u.missing(ev)) for ev in u.events]
            callers = []
            if level < 6 and any(m for _, m in miss):
                callers = [c for c in cg if k in cg[c] and c != k and prog.funcs[c].body is not None and k in unit(c).inl.inlined]
            for ev, m in miss:
                n, w, base, fd, deps, S = ev
                res.count("renumberings")
                names = dict(m)
                for d in deps:
                    where = u.inl.loc(w.e)
                    what = "%s: '%s' renumbers %ss; %s of the same mesh" % (u.f.full, expr_str(w.e)[:60], KIND[fd], d)
                    if d not in names:
                        res.ok("dependent-list-renumbered", where, what)
                        res.count("dependent lists")
                    elif not callers:
                        res.bad("dependent-list-renumbered", where, what, "%s|%s|%s" % (u.f.name, fd, d),
                                "%s replaces the %s list by a renumbered one, but '%s' keeps the old %s numbers%s" % (u.f.full, fd, d, KIND[fd], ": " + names[d] if names[d] else ""))
            nxt += callers
        todo = nxt
    # numbering order, in every unit that has both the numbering and the compaction
    for k in sorted(cand):
        u = units[k]
        u.I.run()
        for ev in u.events:
            u.order(ev, res)
    res.floor("renumberings", 3)
    res.floor("selections compared", 2)
