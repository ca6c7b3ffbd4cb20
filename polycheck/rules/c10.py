"""The orientation carried by one's-complement references is kept by every operation
that copies, renumbers, converts or reads them.

Rules, on the sign analysis of C09: (a) a number derived from a reference (by
decoding it and mapping it) goes back into a list of references complemented exactly
when the reference was; (b) a cell entered into the cell list of a face is
complemented exactly when that cell refers to the face in reverse; (c) a new
reference is stored forward on one outcome of a test on the face's own end points
and complemented on the other; (d) where both outcomes of an orientation test read
the nodes of the face, they read them in opposite order; (e) first/second of an edge
become node 0/1 of the face."""
from ..effects import loop_info, term, writes
from ..flow import ELEM, bare, deref_local
from ..ir import const, expr_str, kids, short, strip_casts, walk
from ..signs import ENC, isint
from .. import mpi
from .c03 import Ctl
from .c09 import analyses, states

ASSUMES = ["the sign test decides orientation: forward references are >= 0"]
STORES = ("asgn", "mut:push_back", "mut:emplace_back", "mut:insert")


def value(w):
    if w.kind == "mut:insert":
        a = (w.e.get("c") or [])[1:]
        return a[-1] if a else None
    return w.rhs


def store_places(w):
    return w.places if w.kind == "asgn" else [p + (ELEM,) for p in w.places]


def selector(S, x, n, st):
    """(src, sign, selector) of an expression that picks a node of an oriented face"""
    k, c = x["k"], x.get("c") or []
    if k == "mem" and x["n"] in ("first", "second"):
        b, sel = c[0], 0 if x["n"] == "first" else 1
    elif k == "mcall" and x.get("mn") in ("front", "back") and c:
        b, sel = c[0], 0 if x["mn"] == "front" else 1
    elif k == "idx" or (k == "opcall" and x["o"] == "[]"):
        b = c[0]
        v = const(strip_casts(c[1]))
        sel = v if v in (0, 1) else None
        if sel is None:
            sel = step(S, c[1], n)
    else:
        return None
    b = strip_casts(b)
    bn, bst = n, st
    d = deref_local(b)
    if d is not None:
        ds = S.fl.reaching(n, d)
        if len(ds) != 1 or ds[0].e is None or "&" not in (S.fl.tname(d) or ""):
            return None
        b, bn = strip_casts(ds[0].e), ds[0].node
        bst = S.IN.get(bn.i)
        if bst is None:
            return None
    if not (b["k"] == "idx" or (b["k"] == "opcall" and b["o"] == "[]") or (b["k"] == "mcall" and b.get("mn") == "at")) or len(b["c"]) != 2:
        return None
    if k not in ("mem",) and not any(isinstance(s, str) and s in ("faces", "edges") for p in S.fl.lv(b["c"][0], bn) for s in p[1:]):
        return None
    src = {t[1] for t in S.eval(b["c"][1], bn, bst) if t[0] in ("idx", "neg") and t[1] and t[2]}
    if len(src) != 1:
        return None
    return src.pop(), sel


def step(S, e, n):
    d = deref_local(e)
    if d is None:
        return None
    for s in n.loops:
        L = loop_info(S.fl, s)
        if L is not None and L.var == d and L.step is not None:
            v = L.step if isinstance(L.step, int) else None
            if v:
                return "up" if v > 0 else "down"
    return None


MIRROR = {0: 1, 1: 0, "up": "down", "down": "up"}


class Unit:
    def __init__(self, f, S, res, seen):
        self.f, self.S, self.res, self.seen = f, S, res, seen
        self.fl = S.fl

    def verdict(self, ok, rule, x, what, key, msg):
        loc = self.S.inl.loc(x)
        k = (loc, rule, what, ok)
        if k in self.seen:
            return
        self.seen.add(k)
        self.res.count(rule)
        self.res.check(ok, rule, loc, what, "%s|%s" % (short(self.f.name), key), "%s: %s" % (self.f.full, msg))

    def run(self):
        S = self.S
        news = []
        for n in S.cfg.livenodes():
            st = S.IN.get(n.i)
            if st is None:
                continue
            for w in S.ws(n):
                if w.kind in STORES and value(w) is not None and isint(strip_casts(value(w)).get("t")):
                    sp = [p for p in store_places(w) if len(p) > 1 and (S.is_signed(p) or p in S.dest)]
                    if sp:
                        self.carried(n, st, w, sp, news)
                if w.kind == "asgn":
                    self.component(n, w)
            for e in self.fl.node_exprs(n):
                for x, s in states(S, e, n):
                    if x["k"] == "cond":
                        self.ternary(x, n, s)
        self.fresh(news)
        self.branches()
        self.fixed_end()

    # (a) and (b)
    def carried(self, n, st, w, sp, news):
        v = value(w)
        toks = self.S.eval(v, n, st)
        facing = [p for p in sp if len(p) > 2 and p[-3] == "faceCells" or any("faceCells" in p for p in sp)]
        rel = [t for t in toks if t[2] is not None and t[0] in ("idx", "neg")]
        lost = [t for t in rel if t[0] == "idx" and t[2] == "-"]
        flip = [t for t in rel if t[0] == "neg" and t[2] == "+"]
        if rel or any(t[0] in ENC for t in toks if t[1] is not None):
            self.verdict(not lost and not flip, "orientation carried over", w.e, "store %s" % expr_str(w.e), "carried|%s" % expr_str(w.e),
                         "'%s' stores a number derived from a %s reference %s" % (expr_str(w.e), "reversed" if lost else "forward",
                                                                                  "without complementing it" if lost else "in complement"))
            return
        if "face_cells" in str(sp):
            return
        # the entry of a face's cell list
        if facing and w.kind != "asgn":
            sub = self.subscript(w.target)
            if sub is not None:
                it = self.S.eval(sub, n, st)
                ctx = {t[2] for t in it if t[1] is not None and t[2]}
                if len(ctx) == 1 and all(t[1] is not None for t in it):
                    want = "neg" if "-" in ctx else "idx"
                    self.verdict(all(t[0] == want for t in toks), "cell entered with the orientation of its reference", w.e, "store %s" % expr_str(w.e), "entry|%s" % expr_str(w.e),
                                 "'%s' enters the cell %s although the cell refers to the face %s" % (
                                     expr_str(w.e), "uncomplemented" if want == "neg" else "complemented", "in reverse" if want == "neg" else "forward"))
                    return
                if len(ctx) == 2:
                    self.verdict(False, "cell entered with the orientation of its reference", w.e, "store %s" % expr_str(w.e), "entry|%s" % expr_str(w.e),
                                 "'%s' enters the cell the same way for forward and reversed references" % expr_str(w.e))
                    return
        pol = {t[0] for t in toks}
        if pol <= {"idx", "neg"} and const(strip_casts(v)) is None:
            news.append((n, w, sp, "neg" if pol == {"neg"} else "idx" if pol == {"idx"} else "both", self.inner(v)))

    def subscript(self, tgt):
        t = strip_casts(tgt)
        if t["k"] in ("idx",) or (t["k"] == "opcall" and t["o"] == "[]") or (t["k"] == "mcall" and t.get("mn") == "at"):
            return t["c"][1]
        return None

    def inner(self, v):
        v = strip_casts(v)
        while v["k"] == "un" and v["o"] == "~":
            v = strip_casts(v["c"][0])
        return v

    # (c)
    def fresh(self, news):
        ctl = None
        S = self.S
        groups = {}
        for n, w, sp, pol, v in news:
            lists = frozenset(p[:-1] for p in sp)
            if not any(S.declared(p) for p in sp) and pol == "idx" and not any(S.is_signed(p) for p in sp):
                continue
            groups.setdefault(lists, []).append((n, w, pol, v))
        for lists, items in groups.items():
            if not any(p in ("neg", "both") for _, _, p, _ in items) and not any(S.declared(p + (ELEM,)) or p + (ELEM,) in S.dest for p in lists):
                continue
            ctl = ctl or Ctl(self.fl)
            for n, w, pol, v in items:
                loc = S.inl.loc(w.e)
                if pol == "both":
                    self.verdict(True, "new reference oriented by a test", w.e, "store %s" % expr_str(w.e), "fresh|%s" % expr_str(w.e), "")
                    continue
                want = "idx" if pol == "neg" else "neg"
                tv = term(self.fl, v, n)
                mine = {(id(c), l) for c, ls in ctl.controllers(n) if len(ls) == 1 for l in ls}
                mate = None
                for m, w2, p2, v2 in items:
                    if p2 != want or term(self.fl, v2, m) != tv:
                        continue
                    other = {(id(c), l) for c, ls in ctl.controllers(m) if len(ls) == 1 for l in ls}
                    if any((c, (not l) if isinstance(l, bool) else l) in other for c, l in mine):
                        mate = (m, w2)
                if mate is None and not any(S.declared(p + (ELEM,)) or p + (ELEM,) in S.dest for p in lists) and self.plain_index_list(items):
                    continue
                self.verdict(mate is not None, "new reference oriented by a test", w.e, "store %s" % expr_str(w.e), "fresh|%s" % expr_str(w.e),
                             "'%s' stores a new reference with a fixed orientation: no counterpart stores it %s on the other outcome of the same test" % (
                                 expr_str(w.e), "complemented" if pol == "idx" else "forward"))

    def plain_index_list(self, items):
        """a local working list that also holds plain numbers (encoded in place later)"""
        return all(p == "idx" for _, _, p, _ in items) or any(w.kind == "asgn" and p == "neg" for _, w, p, _ in items)

    # (d)
    def reads(self, e, n, st):
        out = []
        for x in walk(e):
            if x["k"] == "lambda":
                continue
            r = selector(self.S, x, n, st)
            if r:
                out.append((x, r))
        return out

    def compare(self, pos, neg, x, src):
        """pos/neg: lists of (dest, selector, expr)"""
        if not pos or not neg:
            return
        if any(s is None for _, s, _ in pos + neg):
            return
        dp, dn = {d: s for d, s, _ in pos}, {d: s for d, s, _ in neg}
        if None not in dp and set(dp) == set(dn) and len(dp) == len(pos) and len(dn) == len(neg):
            bad = [d for d in dp if MIRROR[dp[d]] != dn[d]]
        elif len(pos) == len(neg):
            a = sorted(str(MIRROR[s]) for _, s, _ in pos)
            b = sorted(str(s) for _, s, _ in neg)
            if len(pos) == 1 or a != b:
                bad = [0] if a != b else []
            else:
                bad = []
        else:
            return
        self.verdict(not bad, "reversed faces read in reverse", x, "%s / %s" % (", ".join(expr_str(e) for _, _, e in pos[:3]), ", ".join(expr_str(e) for _, _, e in neg[:3])),
                     "mirror|%s" % expr_str(pos[0][2]),
                     "forward references read %s, reversed ones read %s: not the opposite end of the face" % (
                         ", ".join(expr_str(e) for _, _, e in pos), ", ".join(expr_str(e) for _, _, e in neg)))

    def testof(self, e, n, st):
        ts = [t for t in self.S.eval(strip_casts(e), n, st) if t[0] == "test" and t[1]]
        return ts[0] if len(ts) == 1 else None

    def ternary(self, x, n, st):
        c = x["c"]
        t = self.testof(c[0], n, st)
        if not t:
            return
        _, src, sg = t
        pa, na = (c[1], c[2]) if sg == "+" else (c[2], c[1])
        arms = {}
        for a, s in ((pa, "+"), (na, "-")):
            s2 = st.copy()
            s2.facts[src] = s
            arms[s] = [(None, r[1], y) for y, r in self.reads(a, n, s2) if r[0] == src]
        if arms["-"] and len(arms["-"]) == 2 and not arms["+"]:
            sel = [s for _, s, _ in arms["-"]]
            self.verdict(sel == [1, 0], "reversed faces read in reverse", x, expr_str(na), "mirror|%s" % expr_str(na), "the reversed edge is built from its ends in order %s" % sel)
            return
        # nested ordered reads: compare positionally
        if len(arms["+"]) == len(arms["-"]) > 1:
            for p, q in zip(arms["+"], arms["-"]):
                self.compare([p], [q], x, src)
            return
        self.compare(arms["+"], arms["-"], x, src)

    def branches(self):
        S = self.S
        tests = {}
        for n in S.cfg.livenodes():
            st = S.IN.get(n.i)
            if n.kind != "cond" or st is None or n.e.get("k") == "rangecond":
                continue
            t = self.testof(n.e, n, st)
            if t:
                tests[n.i] = (n, t[1], t[2])
        if not tests:
            return
        arms = {}
        regs = {ci: region(S.cfg, self.fl, t[0]) for ci, t in tests.items()}
        for n in S.cfg.livenodes():
            st = S.IN.get(n.i)
            if st is None or not st.facts:
                continue
            for e in self.fl.node_exprs(n):
                rs = self.reads(e, n, st)
                if not rs:
                    continue
                dest = None
                if n.kind == "var":
                    dest = n.e.get("n")
                elif e["k"] == "asgn" or (e["k"] == "opcall" and e["o"] == "="):
                    dest = expr_str(e["c"][0])
                for ci, (T, F) in regs.items():
                    if (n.i in T) != (n.i in F):
                        _, src, sg = tests[ci]
                        sign = sg if n.i in T else ("-" if sg == "+" else "+")
                        for x, r in rs:
                            arms.setdefault(ci, {"+": [], "-": []})[sign].append((dest, r[1], x))
        for ci, a in arms.items():
            self.compare(a["+"], a["-"], tests[ci][0].e, tests[ci][1])

    # (f)
    def fixed_end(self):
        """a face reached through references of either orientation: reading only one fixed end drops the orientation"""
        S = self.S
        by = {}
        for n in S.cfg.livenodes():
            st = S.IN.get(n.i)
            if st is None:
                continue
            for e in self.fl.node_exprs(n):
                for x in walk(e):
                    if x["k"] == "lambda":
                        continue
                    r = selector(S, x, n, st)
                    if r:
                        row = self.rowctx(x, n, st)
                        by.setdefault(r[0], []).append((r[1], row, x))
        for src, rs in by.items():
            blind = [(s, x) for s, row, x in rs if s in (0, 1) and row]
            if not blind:
                continue
            ends = {s for s, _, _ in rs}
            for s, x in blind:
                self.verdict(ends - {s} != set(), "both ends or the end the orientation selects", x, expr_str(x), "fixed-end|%s" % expr_str(x),
                             "'%s' reads the same end of the face for forward and for reversed references" % expr_str(x))

    def rowctx(self, x, n, st):
        b = strip_casts(x["c"][0])
        bn, bst = n, st
        d = deref_local(b)
        if d is not None:
            ds = self.fl.reaching(n, d)
            b, bn = strip_casts(ds[0].e), ds[0].node
            bst = self.S.IN.get(bn.i)
        return {t[2] for t in self.S.eval(b["c"][1], bn, bst) if t[0] in ("idx", "neg") and t[1]} >= {"+", "-"}

    # (e)
    def component(self, n, w):
        tgt, rhs = strip_casts(w.target), strip_casts(w.rhs)
        if rhs["k"] != "mem" or rhs["n"] not in ("first", "second"):
            return
        if not (tgt["k"] == "idx" or (tgt["k"] == "opcall" and tgt["o"] == "[]")):
            return
        v = const(strip_casts(tgt["c"][1]))
        if v not in (0, 1):
            return
        ps = self.fl.lv(tgt["c"][0], n)
        if not any("faces" in p for p in ps) and not self.flows(ps):
            return
        want = 0 if rhs["n"] == "first" else 1
        self.verdict(v == want, "edge ends become face nodes in order", w.e, expr_str(w.e), "ends|%s" % expr_str(w.e), "'%s' swaps the ends of the edge" % expr_str(w.e))

    def flows(self, ps):
        """the local list is appended to a list of faces"""
        for n in self.S.cfg.livenodes():
            for w in self.S.ws(n):
                if w.kind == "mut:push_back" and any("faces" in p for p in w.places) and w.rhs is not None:
                    if set(self.fl.lv(w.rhs, n)) & set(ps):
                        return True
        return False


def region(cfg, fl, c):
    """nodes reached on either outcome of c within the same round of its loop"""
    cut = {c.i}
    for L in c.loops:
        h = loop_info(fl, L).head
        if h is not None:
            cut.add(h.i)
    out = []
    for lab in (True, False):
        seen, st = set(), [s for s, l in c.succ if l is lab]
        while st:
            x = st.pop()
            if x.i in seen or x.i in cut:
                continue
            seen.add(x.i)
            st.extend(y for y, _ in x.succ)
        out.append(seen)
    return out


def run(prog, res, tier):
    seen = set()
    for f, S in analyses(prog, res):
        res.count("functions")
        Unit(f, S, res, seen).run()
    res.floor("functions", 10)
    res.floor("orientation carried over", 3)
    res.floor("reversed faces read in reverse", 3)
