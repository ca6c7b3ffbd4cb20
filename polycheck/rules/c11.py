"""Value types are treated component by component: copying, comparing, ordering, arithmetic,
element access, clear() and empty() involve every member, each with its own counterpart.

Rules: the (loop-free) operations of the value types are evaluated abstractly in the domain
of value numbers (polynomials over unknown members).  (a) assignment and written copy
constructors leave every member equal to the same member of the source; (b) compound and
binary arithmetic yields, for every coordinate, that coordinate combined with the same
coordinate of the other operand; (c) comparison operators and comparators are evaluated for
every abstract outcome of comparing each pair of corresponding components: == holds exactly
when all are equal, != is its negation, < and every comparator is irreflexive, asymmetric,
transitive, with transitive incomparability, and two values are unordered exactly when ==;
(d) element i of a point is its i-th coordinate, for operator[] and the Boost accessors;
(e) constructors and the vector primitives (dot, cross, distance) compute each component
from the matching ones; (f) clear() empties every container member on every path and empty()
is the conjunction over them."""
import itertools
from ..effects import poly, writes
from ..flow import Flow, bare
from ..ir import CFG, Inliner, short, strip_casts, walk
from ..vals import Interp, K, Obj, Und, canon, name, num

ASSUMES = ["the index of a point is a label: it is copied, but takes no part in comparison or arithmetic"]
LABEL = {"index"}
PARALLEL = {"neighborDomains", "sharedNodes", "sharedFaces"}
ARITH = {"+=": "+", "-=": "-", "*=": "*", "/=": "/"}


def fields(prog, cls):
    r = []
    for b in prog.records.get(cls, {}).get("bases", []):
        r += fields(prog, bare(b))
    return r + prog.records.get(cls, {}).get("fields", [])


def swap(t):
    if isinstance(t, tuple):
        if t == ("p", 0):
            return ("p", 1)
        if t == ("p", 1):
            return ("p", 0)
        return tuple(swap(x) for x in t)
    return t


def own(t, i):
    """the term depends on parameter i only"""
    if t == ("p", 1 - i):
        return False
    return not isinstance(t, tuple) or all(own(x, i) for x in t)


class Need(Exception):
    def __init__(self, k):
        self.k = k


class Order:
    """oracle: one outcome (-1, 0, 1) per pair of corresponding unknowns"""

    def __init__(self, vec):
        self.vec = vec

    def __call__(self, o, a, b):
        a, b = canon(a), canon(b)
        if a == b:
            s = 0
        elif swap(a) == b and own(a, 0):
            s = self.get(a)
        elif swap(a) == b and own(a, 1):
            s = -self.get(b)
        elif own(a, 0) and own(b, 0) or own(a, 1) and own(b, 1):
            raise Und("comparison within one value")
        elif plain(a) and plain(b):
            raise Mixed(a, b)
        else:
            raise Und("comparison of a computed value")
        return {"==": s == 0, "!=": s != 0, "<": s < 0, "<=": s <= 0, ">": s > 0, ">=": s >= 0}[o]

    def get(self, k):
        if k not in self.vec:
            raise Need(k)
        return self.vec[k]


def plain(t):
    """a component of one of the values, as it is"""
    return t in (("p", 0), ("p", 1)) or isinstance(t, tuple) and t and t[0] in ("m", "x") and plain(t[1])


class Mixed(Exception):
    """different components of the two values are compared with each other"""

    def __init__(self, a, b):
        self.a, self.b = a, b


def show(t):
    if isinstance(t, tuple) and t:
        if t[0] == "m":
            return "%s.%s" % (show(t[1]), t[2])
        if t[0] == "x":
            return "%s[%s]" % (show(t[1]), show(t[2]))
        if t[0] == "p":
            return "ab"[t[1]] if t[1] in (0, 1) else "arg%d" % t[1]
        if t[0] == "k":
            return str(t[1])
        if t[0] == "C":
            return "%s(%s)" % (t[1], ", ".join(show(x) for x in t[2:]))
        if t[0] == "M":
            return "%s.%s()" % (show(t[2]), t[1])
        if t[0] == "b":
            return "(%s %s %s)" % (show(t[2]), t[1], show(t[3]))
        if t[0] == "poly":
            return "poly(%s)" % ", ".join("*".join([str(c)] + [show(a) for a in m]) for m, c in t[1])
    return str(t)


def table(prog, f, call):
    """{assignment of outcomes: truth} of a two-argument predicate, and its component keys"""
    keys = []
    while True:
        tab = {}
        try:
            for vec in itertools.product((-1, 0, 1), repeat=len(keys)):
                r = call(Interp(prog, Order(dict(zip(keys, vec)))))
                tab[vec] = r
            return keys, tab
        except Need as n:
            keys.append(n.k)
            if len(keys) > 5:
                raise Und("too many components")


def truth(I, r):
    r = I.deref(r)
    if isinstance(r, bool):
        return r
    x = num(r) if isinstance(r, tuple) else None
    if x is None:
        raise Und("not a truth value")
    return bool(x)


COMP = {(-1, -1): (-1,), (-1, 0): (-1,), (0, -1): (-1,), (0, 0): (0,), (0, 1): (1,), (1, 0): (1,), (1, 1): (1,),
        (-1, 1): (-1, 0, 1), (1, -1): (-1, 0, 1)}


def compose(u, v):
    return itertools.product(*(COMP[a, b] for a, b in zip(u, v)))


def weak_order(keys, tab):
    """None, or why the predicate is not a strict weak order"""
    neg = lambda v: tuple(-x for x in v)
    nm = lambda v: ", ".join("%s %s" % (show(k), {-1: "smaller", 0: "equal", 1: "larger"}[x]) for k, x in zip(keys, v))
    zero = (0,) * len(keys)
    if tab[zero]:
        return "a value is smaller than itself"
    for v in tab:
        if tab[v] and tab[neg(v)]:
            return "a < b and b < a when (%s)" % nm(v)
    inc = {v: not tab[v] and not tab[neg(v)] for v in tab}
    for u in tab:
        for v in tab:
            if tab[u] and tab[v]:
                for w in compose(u, v):
                    if not tab[w]:
                        return "not transitive: a < b (%s), b < c (%s), but not a < c" % (nm(u), nm(v))
            if inc[u] and inc[v]:
                for w in compose(u, v):
                    if not inc[w]:
                        return "a and b are unordered (%s), b and c are unordered (%s), but a and c are ordered" % (nm(u), nm(v))
    return None


def this_args(f, prog):
    """(this, args) with the two compared values as parameters 0 and 1"""
    if f.cls and len(f.params) == 1 and bare(f.params[0]["t"]) == bare(f.cls):
        return Obj(("p", 0), f.cls), [Obj(("p", 1), f.cls)]
    if len(f.params) == 2 and bare(f.params[0]["t"]) == bare(f.params[1]["t"]):
        I = Interp(prog)
        th = Obj(("this",), f.cls) if f.cls else None
        return th, [I.param(0, f.params[0]["t"]), I.param(1, f.params[1]["t"])]
    return None


def comparisons(prog, res, bad):
    done = {}
    for f in sorted(prog.funcs.values(), key=lambda f: f.key):
        if f.body is None or f.d.get("rt") != "bool":
            continue
        s = f.short.split("<")[0] if not f.short.startswith("operator") else f.short
        isop = s in ("operator==", "operator!=", "operator<")
        comparator = s == "operator()" or s in ("pairCompare",) or s.lower().startswith("compare")
        if not (isop or comparator):
            continue
        ta = this_args(f, prog)
        if ta is None:
            continue

        def call(I):
            th, ar = this_args(f, prog)
            return truth(I, I.call(f, th, ar))
        try:
            keys, tab = table(prog, f, call)
        except Und as e:
            if isop:
                res.notes.append("%s undecided: %s" % (f.full, e))
            else:
                res.notes.append("comparator %s outside the domain (%s)" % (f.full, e))
            continue
        except Mixed as e:
            bad("matching-components", f, "%s|%s" % (f.cls or f.name, s), "%s is compared with %s" % (show(e.a), show(e.b)))
            continue
        res.count("comparisons")
        cls = bare(f.cls) if f.cls else None
        if s == "operator!=":
            done.setdefault(cls, {})["!="] = (f, keys, tab)
        elif s == "operator==":
            done.setdefault(cls, {})["=="] = (f, keys, tab)
        elif s == "operator<":
            done.setdefault(cls, {})["<"] = (f, keys, tab)
        if s not in ("operator==", "operator!="):
            why = weak_order(keys, tab)
            if why:
                bad("strict-weak-order", f, "%s|%s" % (cls or f.name, s), why)
            else:
                res.ok("strict-weak-order", f.loc(), "%s over %s" % (f.full, ", ".join(show(k) for k in keys)))
    for cls, d in sorted(done.items(), key=lambda x: str(x[0])):
        for o in ("==", "!="):
            if o in d:
                f, keys, tab = d[o]
                wrong = [v for v in tab if tab[v] != ((not any(v)) == (o == "=="))]
                want = {x["n"] for x in fields(prog, cls)} - LABEL if cls in prog.records else set()
                have = {m for k in keys for m in members(k)}
                if wrong:
                    bad("equality", f, "%s|%s" % (cls, o), "%s is %s when (%s)" % (o, "true" if tab[wrong[0]] else "false", ", ".join(
                        "%s %s" % (show(k), {-1: "smaller", 0: "equal", 1: "larger"}[x]) for k, x in zip(keys, wrong[0]))))
                elif want - have:
                    bad("equality", f, "%s|%s|members" % (cls, o), "%s takes no part in %s" % (", ".join(sorted(want - have)), o))
                else:
                    res.ok("equality", f.loc(), "%s exactly when all of %s are equal" % (f.full, ", ".join(show(k) for k in keys)))
        if "<" in d and "==" in d:
            f, keys, tab = d["<"]
            g, ke, te = d["=="]
            if set(keys) != set(ke):
                bad("order-and-equality", f, "%s" % cls, "< looks at %s, == at %s" % (", ".join(map(show, keys)), ", ".join(map(show, ke))))
            elif any((not tab[v] and not tab[tuple(-x for x in v)]) != (not any(v)) for v in tab):
                bad("order-and-equality", f, "%s|unordered" % cls, "two different values are neither smaller than the other")
            else:
                res.ok("order-and-equality", f.loc(), "%s: unordered exactly when equal" % cls)


def members(t):
    if isinstance(t, tuple):
        if t and t[0] == "m":
            yield t[2]
        for x in t:
            yield from members(x)


def numeric(t):
    return bare(t) in ("int", "unsigned int", "long", "unsigned long", "double", "float", "short", "long long")


def coords(prog, cls):
    fs = [x for x in prog.records.get(cls, {}).get("fields", []) if x["n"] not in LABEL]
    return [x["n"] for x in fs] if fs and all(numeric(x["t"]) for x in fs) and len({bare(x["t"]) for x in fs}) == 1 else None


def eq(a, b):
    if isinstance(a, Obj):
        try:
            a = name(a)
        except Und:
            return None
    if isinstance(b, Obj):
        try:
            b = name(b)
        except Und:
            return None
    if not isinstance(a, tuple) or not isinstance(b, tuple):
        return a == b
    return poly(a) == poly(b)


def arithmetic(prog, res, bad):
    for f in sorted(prog.funcs.values(), key=lambda f: f.key):
        if f.body is None or not f.cls or f.cls not in prog.records:
            continue
        s, cls = f.short, f.cls
        every = [x["n"] for x in fields(prog, cls)]
        cs = coords(prog, cls)
        one = len(f.params) == 1
        same = one and bare(f.params[0]["t"]) == bare(cls)
        key = "%s|%s|%s" % (cls.split("<")[0], s, "v" if same else "s")
        try:
            I = Interp(prog)
            if s == "operator=" and same or f.d.get("ctor") and same:
                th, ar = Obj(("p", 0) if s == "operator=" else None, cls), Obj(("p", 1), cls)
                I.call(f, th, [ar])
                res.count("assignments and copies")
                for m in every:
                    got = I.load((th, m))
                    if eq(got, I.fresh(Obj(("p", 1), cls), m)) is False:
                        bad("copies-every-member", f, key + "|" + m, "after copying, %s is %s, not the %s of the source" % (m, show(got) if isinstance(got, tuple) else got, m))
                    else:
                        res.ok("copies-every-member", f.loc(), "%s: %s" % (f.full, m))
            elif cs and s in ARITH and one:
                th = Obj(("p", 0), cls)
                a = Obj(("p", 1), cls) if same else I.param(1, f.params[0]["t"])
                I.call(f, th, [a])
                check_result(I, prog, f, th, cls, cs, ARITH[s], same, res, bad, key)
            elif cs and s in ("operator+", "operator-", "operator*", "operator/") and len(f.params) <= 1 and bare(f.d.get("rt")) == bare(cls):
                th = Obj(("p", 0), cls)
                a = [] if not f.params else [Obj(("p", 1), cls) if same else I.param(1, f.params[0]["t"])]
                r = I.deref(I.call(f, th, a))
                if not isinstance(r, Obj):
                    continue
                if any(name0(th, m) is False for m in every):
                    bad("component-wise", f, key + "|operand", "the operand itself is changed")
                check_result(I, prog, f, r, cls, cs, s[-1] if f.params else "neg", same, res, bad, key, f.params != [])
            elif cs and s == "operator[]" and one:
                for i, m in enumerate(cs):
                    th = Obj(("p", 0), cls)
                    r = Interp(prog).call(f, th, [K(i)])
                    r = I.deref(r)
                    if eq(r, ("m", ("p", 0), m)) is not True:
                        bad("element-access", f, key + "|" + m, "element %d is not %s" % (i, m))
                    else:
                        res.ok("element-access", f.loc(), "%s: [%d] is %s" % (f.full, i, m))
            elif f.d.get("ctor") and leaves(prog, cls) and len(f.params) >= len(leaves(prog, cls)):
                ctor(prog, f, cls, leaves(prog, cls), res, bad, key)
            elif cs and s in ("realx", "realy", "realz"):
                th = Obj(("p", 0), cls)
                r = I.deref(I.call(f, th, [("p", 1), ("p", 2)]))
                ms = {m for m in members(r)}
                res.check(ms == {s[-1]}, "element-access", f.loc(), f.full, key, "%s is computed from %s" % (f.full, ", ".join(sorted(ms))))
        except Und as e:
            res.notes.append("%s undecided: %s" % (f.full, e))
        except Mixed as e:
            res.notes.append("%s undecided" % f.full)


def name0(o, m):
    """member still what it was"""
    v = o.f.get(m)
    if v is None or isinstance(v, Obj):
        return True
    return v == ("m", o.name, m)


def check_result(I, prog, f, r, cls, cs, op, same, res, bad, key, label=True):
    res.count("arithmetic operators")
    for m in cs:
        got = I.load((r, m))
        a = ("m", ("p", 0), m)
        b = ("m", ("p", 1), m) if same else ("p", 1)
        want = ("u", "-", a) if op == "neg" else ("b", op, a, b)
        e = eq(got, want)
        if e is False:
            bad("component-wise", f, key + "|" + m, "%s of the result is %s" % (m, show(got)))
        else:
            res.ok("component-wise", f.loc(), "%s: %s" % (f.full, m))
    for m in [x["n"] for x in fields(prog, cls)]:
        if m in LABEL and label:
            got = I.load((r, m))
            if eq(got, ("m", ("p", 0), m)) is False:
                bad("component-wise", f, key + "|" + m, "%s of the result is %s" % (m, show(got)))


def base_of(t, out):
    """parameters a term is made of"""
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == "p":
            out.append(t[1])
        for x in t:
            base_of(x, out)
    return out


def leaves(prog, cls):
    """paths of the coordinates of a value made of coordinates, in order"""
    cs = coords(prog, cls)
    if cs:
        return [(m,) for m in cs]
    fs = fields(prog, cls)
    sub = [coords(prog, bare(x["t"])) for x in fs]
    return [(x["n"], m) for x, c in zip(fs, sub) for m in c] if fs and all(sub) else None


def leaf(I, o, path):
    for m in path[:-1]:
        o = I.load((o, m))
    return I.load((o, path[-1]))


def ctor(prog, f, cls, cs, res, bad, key):
    """parameter i belongs to coordinate i; further parameters come in groups of one per coordinate or are shared"""
    I = Interp(prog)
    th = Obj(None, cls)
    I.call(f, th, [I.param(i, p["t"]) for i, p in enumerate(f.params)])
    n = len(cs)
    used = [sorted(set(base_of(leaf(I, th, m), []))) for m in cs]
    res.count("constructors")
    for i, path in enumerate(cs):
        m = ".".join(path)
        if i not in used[i] or any(j in used[i] for j in range(n) if j != i):
            bad("constructor", f, "%s|%d|%s" % (key, len(f.params), m), "%s is built from parameter %s, not from parameter %d" % (
                m, ", ".join(f.params[j].get("n") or str(j) for j in used[i]) or "none", i))
            continue
        rest = [j for j in used[i] if j >= n]
        ref = [j for j in used[0] if j >= n]
        if i and (len(rest) != len(ref) or any(r != s and r != s + i for r, s in zip(rest, ref))):
            bad("constructor", f, "%s|%d|%s|rest" % (key, len(f.params), m), "%s is not computed from the same kind of parameters as %s" % (m, ".".join(cs[0])))
            continue
        if i:       # the same formula
            sub = {0: i}
            sub.update({s: r for r, s in zip(rest, ref)})
            if canon2(subst(leaf(I, th, cs[0]), sub)) != canon2(leaf(I, th, path)):
                bad("constructor", f, "%s|%d|%s|formula" % (key, len(f.params), m), "%s is computed by another formula than %s" % (m, ".".join(cs[0])))
                continue
        res.ok("constructor", f.loc(), "%s: %s from parameter %d" % (f.full, m, i))


def canon2(t):
    return tuple(sorted(poly(t).items(), key=repr)) if isinstance(t, tuple) and t and t[0] in ("b", "u", "k", "m", "p", "C") else t


def subst(t, sub):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == "p":
            return ("p", sub.get(t[1], t[1]))
        return tuple(subst(x, sub) for x in t)
    return t


def accessors(prog, res, bad):
    for f in sorted(prog.funcs.values(), key=lambda f: f.key):
        c = f.cls or ""
        if f.body is None or f.short not in ("get", "set", "construct"):
            continue
        try:
            if "boost::geometry::traits::access<" in c:
                cls = bare(f.params[0]["t"])
                cs = coords(prog, cls)
                i = c.rsplit(">", 1)[0].split(",")[-2].strip()
                if not cs or not i.isdigit() or int(i) >= len(cs):
                    continue
                m = cs[int(i)]
                I = Interp(prog)
                o = Obj(("p", 0), cls)
                if f.short == "get":
                    r = I.deref(I.call(f, None, [o]))
                    res.check(eq(r, ("m", ("p", 0), m)) is True, "element-access", f.loc(), f.full, "%s|%s" % (c.split("<")[0], i),
                              "%s: coordinate %s is read from %s" % (f.full, i, show(r)))
                else:
                    I.call(f, None, [o, ("p", 1)])
                    good = all(eq(I.load((o, x)), ("p", 1) if x == m else ("m", ("p", 0), x)) is True for x in cs)
                    res.check(good, "element-access", f.loc(), f.full, "%s|set|%s" % (c.split("<")[0], i), "%s: setting coordinate %s stores elsewhere" % (f.full, i))
                res.count("accessors")
            elif c.startswith("boost::polygon::point_") :
                cls = bare(f.params[0]["t"]) if f.short != "construct" else bare(f.d.get("rt"))
                cs = coords(prog, cls)
                if not cs:
                    continue
                if f.short == "construct":
                    I = Interp(prog)
                    r = I.deref(I.call(f, None, [("p", 0), ("p", 1)]))
                    good = isinstance(r, Obj) and all(eq(I.load((r, m)), ("p", i)) is True for i, m in enumerate(cs))
                    res.check(good, "element-access", f.loc(), f.full, "construct", "%s: the coordinates are not taken in order" % f.full)
                    continue
                for horizontal in (True, False):
                    I = Interp(prog)
                    orient = K(0 if horizontal else 1)        # boost::polygon: HORIZONTAL = 0, VERTICAL = 1
                    o = Obj(("p", 0), cls)
                    m = cs[0 if horizontal else 1]
                    if f.short == "get":
                        r = I.deref(I.call(f, None, [o, orient]))
                        good = eq(r, ("m", ("p", 0), m)) is True
                    else:
                        I.call(f, None, [o, orient, ("p", 2)])
                        good = all(eq(I.load((o, x)), ("p", 2) if x == m else ("m", ("p", 0), x)) is True for x in cs)
                    res.check(good, "element-access", f.loc(), f.full, "%s|%s" % (f.short, horizontal), "%s: %s is not %s" % (
                        f.full, "HORIZONTAL" if horizontal else "VERTICAL", m))
                res.count("accessors")
        except Und as e:
            res.notes.append("%s undecided: %s" % (f.full, e))


P2 = lambda i, j: ("x", ("p", i), K(j))
MUL = lambda a, b: ("b", "*", a, b)
ADD = lambda *t: t[0] if len(t) == 1 else ("b", "+", ADD(*t[:-1]), t[-1])
SUB = lambda a, b: ("b", "-", a, b)


def primitives(prog, res, bad):
    """dot, cross, distance on coordinate arrays"""
    for f in sorted(prog.funcs.values(), key=lambda f: f.key):
        if f.body is None or "polytope::geometry" not in f.full:
            continue
        s = f.short.split("<")[0]
        if s not in ("dot", "cross", "distance") or any("*" not in p["t"] for p in f.params):
            continue
        ta = f.full[f.full.find("<") + 1:].split(",")[0]
        if not ta.isdigit():
            continue
        D = int(ta)
        I = Interp(prog)
        args = [I.param(i, p["t"]) for i, p in enumerate(f.params)]
        try:
            r = I.deref(I.call(f, None, args))
            res.count("vector primitives")
            if s == "dot":
                want = ADD(*[MUL(P2(0, i), P2(1, i)) for i in range(D)])
                good = poly(r) == poly(want)
            elif s == "distance":
                want = canon(ADD(*[MUL(SUB(P2(0, i), P2(1, i)), SUB(P2(0, i), P2(1, i))) for i in range(D)]))
                good = r == ("C", "sqrt", want)
            else:
                o = args[2][1]
                c = [I.load((o, i)) for i in range(3)]
                z = SUB(MUL(P2(0, 0), P2(1, 1)), MUL(P2(0, 1), P2(1, 0)))
                want = [K(0), K(0), z] if D == 2 else [SUB(MUL(P2(0, 1), P2(1, 2)), MUL(P2(0, 2), P2(1, 1))), SUB(MUL(P2(0, 2), P2(1, 0)), MUL(P2(0, 0), P2(1, 2))), z]
                good = all(poly(a) == poly(b) for a, b in zip(c, want))
            if good:
                res.ok("vector-primitive", f.loc(), f.full)
            else:
                bad("vector-primitive", f, "%s|%d" % (s, D), "the components are not combined as in the %s" % {"dot": "dot product", "cross": "cross product", "distance": "Euclidean distance"}[s])
        except Und as e:
            res.notes.append("%s undecided: %s" % (f.full, e))


def is_container(prog, t):
    b = bare(t)
    return b.startswith(("std::vector<", "std::set<", "std::map<", "std::list<")) or b.startswith("polytope::PLC<")


def clearing(prog, res, bad):
    for f in sorted(prog.funcs.values(), key=lambda f: f.key):
        if f.body is None or not f.cls or f.cls not in prog.records or f.params:
            continue
        conts = [x["n"] for x in fields(prog, f.cls) if is_container(prog, x["t"])]
        if not conts:
            continue
        if f.short == "clear":
            inl = Inliner(prog, lambda t, n: t.short == "clear" or t.cls == f.cls, maxdepth=4).run(f)
            fl = Flow(inl, CFG(inl.body))
            pdom = fl.cfg.dominators(post=True)
            must = pdom.get(fl.cfg.entry.i, 0) | fl.cfg.dominators()[fl.cfg.exit.i]
            empty, cleared = {}, set()
            for n in fl.cfg.livenodes():
                for w in writes(fl, n):
                    for p in w.places:
                        if p[0] != ("T",) or len(p) < 2:
                            continue
                        path = p[1:]
                        z = w.kind == "mut:clear" or w.kind == "mut:resize" and w.rhs is not None and w.rhs.get("v") == 0 or \
                            w.kind == "asgn" and strip_casts(w.rhs)["k"] in ("ctor", "init") and not [x for x in strip_casts(w.rhs)["c"] if x["k"] != "x"] or \
                            w.kind in ("mut:swap",)
                        if must >> n.i & 1 and z:
                            cleared.add(path)
            res.count("clear and empty")
            for m in conts:
                t = next(bare(x["t"]) for x in fields(prog, f.cls) if x["n"] == m)
                ok = (m,) in cleared
                if not ok and t in prog.records:
                    sub = [x["n"] for x in fields(prog, t) if is_container(prog, x["t"])]
                    ok = bool(sub) and all((m, x) in cleared for x in sub)
                if ok:
                    res.ok("clear", f.loc(), "%s: %s" % (f.full, m))
                else:
                    bad("clear", f, "%s|%s" % (f.cls.split("<")[0], m), "%s is not emptied on every path" % m)
        elif f.short == "empty" and f.d.get("rt") == "bool":
            want = [m for m in conts if m not in PARALLEL]
            seen = []

            def run(val):
                def atom(t):
                    if t[0] == "M" and t[1] in ("empty", "size", "nfacets", "nholes"):
                        ms = [m for m in members(t[2])]
                        if len(ms) >= 1:
                            m = ms[-1]
                            if m not in seen:
                                seen.append(m)
                            if m not in val:
                                raise Need(m)
                            return val[m] if t[1] == "empty" else not val[m]
                    raise Und("condition")

                def oracle(o, a, b):
                    for x, y, q in ((a, b, o), (b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(o, o))):
                        if isinstance(x, tuple) and x[0] == "M" and x[1] == "size" and isinstance(y, tuple) and num(y) is not None:
                            e = atom(("M", "empty", x[2]))
                            v = num(y)
                            return {"==": e if v == 0 else None, "!=": not e if v == 0 else None, ">": not e if v == 0 else None, "<": e if v == 1 else None,
                                    ">=": not e if v == 1 else None, "<=": e if v == 0 else None}[q]
                    raise Und("comparison")
                I = Interp(prog, oracle, atom)
                r = I.deref(I.call(f, Obj(("p", 0), f.cls), []))
                if isinstance(r, tuple) and num(r) is None:
                    r = atom(r)
                return truth(I, r)
            try:
                names = list(dict.fromkeys(want))
                res.count("clear and empty")
                wrong = None
                # members of member objects (convexHull.facets ...) appear under their own names
                while True:
                    try:
                        for v in itertools.product((True, False), repeat=len(names)):
                            r = run(dict(zip(names, v)))
                            if r != all(v) and wrong is None:
                                wrong = dict(zip(names, v)), r
                        break
                    except Need as n:
                        if len(names) > 11:
                            raise Und("too many members")
                        names.append(n.k)
                        wrong = None
                # a member that is never asked about, unless it is an object whose own members are
                missing = [m for m in want if m not in seen]
                for m in list(missing):
                    t = next(bare(x["t"]) for x in fields(prog, f.cls) if x["n"] == m)
                    sub = [x["n"] for x in fields(prog, t)] if t in prog.records else []
                    if sub and all(x in seen for x in sub):
                        missing.remove(m)
                        names = [x for x in names if x != m]
                if missing:
                    bad("empty", f, "%s|%s" % (f.cls.split("<")[0], "/".join(missing)), "%s may hold something although empty() is true" % ", ".join(missing))
                else:
                    wrong = None
                    for v in itertools.product((True, False), repeat=len(names)):
                        if run(dict(zip(names, v))) != all(v):
                            wrong = dict(zip(names, v))
                            break
                    if wrong:
                        bad("empty", f, "%s|and" % f.cls.split("<")[0], "empty() is %s although %s" % (
                            "true" if not all(wrong.values()) else "false", ", ".join("%s is %s" % (m, "empty" if x else "not empty") for m, x in wrong.items())))
                    else:
                        res.ok("empty", f.loc(), "%s: %s" % (f.full, ", ".join(names)))
            except Und as e:
                res.notes.append("%s undecided: %s" % (f.full, e))


def run(prog, res, tier):
    def bad(rule, f, key, why):
        res.bad(rule, f.loc(), f.full, key, "%s: %s" % (f.full, why))
    comparisons(prog, res, bad)
    arithmetic(prog, res, bad)
    accessors(prog, res, bad)
    primitives(prog, res, bad)
    clearing(prog, res, bad)
    res.floor("comparisons", 1)
    res.floor("arithmetic operators", 1)
    res.floor("clear and empty", 1)
