"""The geometric primitives compute what their definitions say, for all arguments.

Rule: each loop-free primitive is evaluated abstractly in the domain of quotients of
polynomials over its arguments (square roots are elements whose square is known; every
comparison the abstract values do not decide is taken to be negative, zero and positive in
turn, consistently for equal quantities).  On every outcome, what is returned must satisfy
the identity that defines the primitive, as an equality of normal forms: circumcentres are
equidistant from the vertices and in their plane; intersections lie on both objects, on the
right side; closest points are the foot of the perpendicular or the nearer end; centroids
are means; volumes, normals and side tests are the determinants; quantising and
dequantising are inverse to each other in every coordinate."""
from ..algebra import Alg, Big, Rat
from ..flow import bare, is_ptr
from ..vals import Interp, K, Obj, Und

ASSUMES = ["arithmetic is that of the reals: conversions between number types and rounding are not modelled",
           "arguments documented as unit vectors are unit vectors; quantities under a square root are positive where they are divided by"]
LIMIT = 600


class Out:
    """one abstract outcome of a primitive"""

    def __init__(self, A, ret, args, known, this=None):
        self.A, self.ret, self.args, self.known, self.this = A, ret, args, known, this

    def out(self, i, j):
        return self.A.rat(self.args[i][1].f.get(j, ("unset", i, j)))

    def outs(self, i, n):
        return [self.out(i, j) for j in range(n)]

    def sgn(self, q):
        """sign of a quantity as far as this outcome knows it"""
        return {(-1,): -1, (0,): 0, (1,): 1, (0, 1): GE, (-1, 0): LE, (-1, 1): NE}.get(tuple(sorted(signs(self.A, self.A.rat(q), self.known))))

    def ge0(self, q):
        return self.sgn(q) in (0, 1, GE)

    def le0(self, q):
        return self.sgn(q) in (0, -1, LE)


def positive(A, m):
    """monomial made of square roots only"""
    return all(A.terms[a][0] == "sqrt" for a, e in m)


def strip(A, p):
    """divide by the square roots common to all monomials"""
    if not p:
        return p
    common = None
    for m in p:
        d = {a: e for a, e in m if A.terms[a][0] == "sqrt"}
        common = d if common is None else {a: min(e, d.get(a, 0)) for a, e in common.items() if d.get(a)}
    if not common:
        return p
    return {tuple((a, e - common.get(a, 0)) for a, e in m if e > common.get(a, 0)): c for m, c in p.items()}


def signkey(A, r):
    n, d = strip(A, A.reduce(r.n)), strip(A, r.d)
    for q in A.rules.values():          # squares of square roots are positive
        m = min(q)
        if set(q) == set(d) and all(d[x] * q[m] == q[x] * d[m] for x in d) and m != ():
            d = {(): d[m] / q[m]}
            break
    if set(d) == {()} and len(n) == 1:
        (m, c), = n.items()
        if positive(A, m):
            return None, 1 if (c > 0) == (d[()] > 0) else -1
    return Rat(A, n, d).sign_key()


def signs(A, r, known):
    """set of signs the quantity may have"""
    if r.iszero():
        return frozenset([0])
    k, s = signkey(A, r)
    if k is None:
        return frozenset([s])
    return frozenset(x * s for x in known.get(k, (-1, 0, 1)))


HOLDS = {"==": lambda s: s == 0, "!=": lambda s: s != 0, "<": lambda s: s < 0, "<=": lambda s: s <= 0, ">": lambda s: s > 0, ">=": lambda s: s >= 0}
GE, LE, NE = 0.5, -0.5, 2


def outcomes(prog, f, rules=None, ext=None, this=None, args=None, keep=None):
    """all abstract outcomes of f"""
    res = []
    stack = [[]]
    while stack:
        dec = stack.pop()
        if len(res) > LIMIT:
            raise Und("too many outcomes")
        A = Alg()
        if rules:
            rules(A)
        known = {}
        used = []

        def oracle(o, a, b):
            q = A.rat(a) - A.rat(b)
            may = signs(A, q, known)
            yes = [x for x in may if HOLDS[o](x)]
            if not yes or len(yes) == len(may):
                return bool(yes)
            i = len(used)
            if i < len(dec):
                v = dec[i]
            else:
                v = True
                stack.append(list(used) + [False])
            used.append(v)
            k, g = signkey(A, q)
            known[k] = frozenset(x * g for x in may if HOLDS[o](x) == v)
            return v
        I = Interp(prog, oracle, lambda t: oracle("!=", t, K(0)))
        I.ext.update(ext or {})
        ar = args(I) if args else [I.param(i, p["t"]) for i, p in enumerate(f.params)]
        th = this() if this else None
        env = []
        pa = []
        for i, (p, a) in enumerate(zip(f.params, ar)):
            if "&" in p["t"] and not p["t"].startswith("const ") and not isinstance(a, Obj) and not is_ptr(p["t"]):
                h = {"v": a}
                pa.append(("lv", h, "v"))
                env.append(h)
            else:
                pa.append(a)
                env.append(None)
        r = I.deref(I.call(f, th, pa))
        o = Out(A, r, ar, known, th)
        o.refs, o.I = env, I
        res.append(o)
    return res


def V(o, i, n):
    """components of argument i as they were"""
    return [o.A.rat(("x", ("p", i), K(j))) for j in range(n)]


def S(o, i):
    return o.A.rat(("p", i))


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def dot(a, b):
    r = a[0] * b[0]
    for x, y in list(zip(a, b))[1:]:
        r = r + x * y
    return r


def cross3(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def cross2(a, b):
    return a[0] * b[1] - a[1] * b[0]


def same(a, b):
    return all(x.same(y) for x, y in zip(a, b))


def zero(v):
    return all(x.iszero() for x in v)


# ---- definitions; each returns None or what is wrong
def closest_on_segment(o):
    p, s1, s2, r = V(o, 0, 2), V(o, 1, 2), V(o, 2, 2), o.outs(3, 2)
    d = sub(s2, s1)
    if not cross2(sub(r, s1), d).iszero():
        return "the result is not on the line through the ends of the segment"
    L2 = dot(d, d)
    t = dot(sub(p, s1), d)
    L = o.A.sqrt(L2)
    lo, hi = o.sgn(t / L), o.sgn(t / L - L)
    lo, hi = lo if lo is not None else o.sgn(t), hi if hi is not None else o.sgn(t - L2)
    if dot(sub(r, p), d).iszero():
        return None if lo in (0, 1, GE) and hi in (0, -1, LE) else "the foot of the perpendicular is taken although it may be outside the segment"
    if same(r, s1) and lo is not None:
        return None if lo in (0, -1, LE) else "the first end is taken although the foot of the perpendicular is not before it"
    if same(r, s2) and hi is not None:
        return None if hi in (0, 1, GE) else "the second end is taken although the foot of the perpendicular is not beyond it"
    m = [x * 2 - a - b for x, a, b in zip(r, s1, s2)]
    return None if lo is None and hi is None and o.known and (zero(m) or same(r, s1) or same(r, s2)) else "the result is neither an end nor the foot of the perpendicular"


def truthy(o):
    if isinstance(o.ret, bool):
        return o.ret
    c = o.A.rat(o.ret).const()
    if c is None:
        raise Und("result is not decided")
    return bool(c)


def ray_plane(o):
    p, n, pp, np, tol = V(o, 0, 3), V(o, 1, 3), V(o, 2, 3), V(o, 3, 3), S(o, 4)
    delta = sub(pp, p)
    nd = dot(n, np)
    ab = lambda x: Rat(o.A, {((o.A.atom(("abs", x.key())), 1),): 1})
    par = o.sgn(ab(nd) - tol)
    side = o.sgn(dot(delta, np) / nd)
    inplane = [o.sgn(ab(x) - tol) for x in (dot(np, delta), -dot(np, delta))]
    inplane = [x for x in inplane if x is not None]
    if truthy(o):
        r = o.outs(5, 3)
        if not zero(cross3(sub(r, p), n)):
            return "the point returned is not on the ray"
        if same(r, p) and not dot(sub(r, pp), np).iszero():
            if par in (-1, LE) and inplane and inplane[0] in (-1, LE):
                return None
            return "the origin of the ray is returned although the ray is not known to lie in the plane"
        if not dot(sub(r, pp), np).iszero():
            return "the point returned is not in the plane"
        if side in (-1, LE):
            return "a point behind the origin of the ray is returned"
        return None if side in (0, 1, GE) else "the point returned may be behind the origin of the ray"
    if par in (-1, LE):
        return None if inplane and inplane[0] in (0, 1, GE) else "no intersection is reported although the ray may lie in the plane"
    return None if side in (-1, LE) else "no intersection is reported although the plane is ahead"


def unit_rules(i, n):
    def rules(A):
        a = [A.atom(("x", ("p", i), K(j))) for j in range(n)]
        p = {(): 1}
        for x in a[1:]:
            p[((x, 2),)] = -1
        A.rules[a[0]] = p
    return rules


def ray_ball(n):
    def spec(o):
        p, v, c, R = V(o, 0, n), V(o, 1, n), V(o, 2, n), S(o, 3)
        r = o.outs(5, n)
        if not truthy(o):
            return "no intersection is reported"
        if same(r, p):
            return None if len(o.known) else "the origin of the ray is always returned"
        if n == 3 and not zero(cross3(sub(r, p), v)) or n == 2 and not cross2(sub(r, p), v).iszero():
            return "the point returned is not on the ray"
        d = sub(r, c)
        if not (dot(d, d) - R * R).iszero():
            return "the point returned is not at the radius"
        s = o.sgn(dot(d, v))
        return None if s == 1 else "the intersection behind the origin is returned" if s == -1 else None
    return spec


def circumcenter(n, nv, planar=False, boolean=False):
    def spec(o):
        if boolean and not truthy(o):
            return None
        ps = [V(o, i, n) for i in range(nv)]
        X = o.outs(nv, n)
        for q in ps[1:]:
            if not (dot([x + x for x in X], sub(q, ps[0])) - (dot(q, q) - dot(ps[0], ps[0]))).iszero():
                return "the result is not equidistant from all vertices"
        if planar and not dot(sub(X, ps[0]), cross3(sub(ps[1], ps[0]), sub(ps[2], ps[0]))).iszero():
            return "the result is not in the plane of the triangle"
    return spec


def mean(n, nv, out=None):
    def spec(o):
        ps = [V(o, i, n) for i in range(nv)]
        X = o.outs(nv if out is None else out, n)
        for j in range(n):
            s = ps[0][j]
            for q in ps[1:]:
                s = s + q[j]
            if not (X[j] * nv - s).iszero():
                return "coordinate %d is not the mean of the vertices" % j
    return spec


def seg_seg(o):
    a, b, c, d, tol = V(o, 0, 2), V(o, 1, 2), V(o, 2, 2), V(o, 3, 2), S(o, 5)
    r1, r2, ca = sub(b, a), sub(d, c), sub(c, a)
    den = cross2(r1, r2)
    p1, p2 = cross2(ca, r2) / den, cross2(ca, r1) / den
    inside = [o.ge0(p1 + tol), o.le0(p1 - 1 - tol), o.ge0(p2 + tol), o.le0(p2 - 1 - tol)]
    outside = [o.sgn(p1 + tol), o.sgn(1 + tol - p1), o.sgn(p2 + tol), o.sgn(1 + tol - p2)]
    if truthy(o):
        if o.sgn(den) not in (1, -1, NE):
            return "parallel segments are reported to intersect"
        if not all(inside):
            return "segments are reported to intersect although the lines meet outside one of them"
        r = o.outs(4, 2)
        if cross2(sub(r, a), r1).iszero() and cross2(sub(r, c), r2).iszero():
            return None
        for q, s in ((a, o.le0(p1 - tol)), (b, o.ge0(p1 - 1 + tol)), (c, o.le0(p2 - tol)), (d, o.ge0(p2 - 1 + tol))):
            if same(r, q):
                return None if s else "an end of a segment is returned although the lines do not meet there"
        return "the result is not on both lines"
    return None if o.sgn(den) == 0 or -1 in outside or LE in outside else "no intersection is reported although the segments may cross"


def tri_volume(o):
    a, b, c = V(o, 0, 2), V(o, 1, 2), V(o, 2, 2)
    return None if (o.A.rat(o.ret) - cross2(sub(c, a), sub(b, a))).iszero() else "the result is not the cross product of the edges 1-3 and 1-2"


def tet(o, val):
    a, b, c, d = (V(o, i, 3) for i in range(4))
    return (o.A.rat(val) - dot(cross3(sub(c, a), sub(b, a)), sub(d, a))).iszero()


def tet_volume(o):
    return None if tet(o, o.ret) else "the result is not the triple product of the edges 1-3, 1-2 and 1-4"


def tet_volume_centroid(o):
    if not tet(o, o.refs[4]["v"]):
        return "the volume is not the triple product of the edges 1-3, 1-2 and 1-4"
    return mean(3, 4, 5)(o)


def side_line(o):
    l1, l2, p = ([S(o, 2 * i), S(o, 2 * i + 1)] for i in range(3))
    s = o.sgn(cross2(sub(l2, l1), sub(p, l1)))
    if s is None:
        return "the side does not depend on the orientation of the three points"
    return None if o.A.rat(o.ret).const() == -s else "wrong side when the point is %s the line" % {1: "to the left of", -1: "to the right of", 0: "on"}[s]


def side_plane(o):
    q, n, p = ([S(o, 3 * i + j) for j in range(3)] for i in range(3))
    s = o.sgn(dot(n, sub(p, q)))
    if s is None:
        return "the side does not depend on the distance along the normal"
    return None if o.A.rat(o.ret).const() == s else "wrong side when the point is %s the plane" % {1: "above", -1: "below", 0: "in"}[s]


def normal(o):
    a, b, c = ([S(o, 3 * i + j) for j in range(3)] for i in range(3))
    w = cross3(sub(b, a), sub(c, a))
    for j in range(3):
        if not (o.A.rat(o.refs[9 + j]["v"]) - w[j]).iszero():
            return "component %d is not that of the cross product of the edges ab and ac" % j


def pt(o, i, n):
    return [o.A.rat(("m", ("p", i), "xyz"[j])) for j in range(n)]


def zcross(o):
    a, b, c = (pt(o, i, 2) for i in range(3))
    s = o.sgn(cross2(sub(b, a), sub(c, a)))
    if s is None:
        return "the result does not depend on the orientation of the three points"
    return None if o.A.rat(o.ret).const() == s else "wrong sign when the points turn %s" % {1: "left", -1: "right", 0: "not at all"}[s]


def plane_dist(o):
    p, q, n = (pt(o, i, 3) for i in range(3))
    return None if (o.A.rat(o.ret) - dot(sub(p, q), n)).iszero() else "the result is not the distance along the normal"


def line_dist(o):
    p, q, n = (pt(o, i, 3) for i in range(3))
    r = o.A.rat(o.ret)
    d = sub(p, q)
    want = dot(d, d) - dot(d, n) * dot(d, n)
    w = Rat(o.A, {((o.A.atom(("abs", want.key())), 1),): 1})
    return None if (r * r - w).iszero() or (r * r - want).iszero() else "the result is not the length of the part perpendicular to the line"


def sgn1(o):
    s = o.sgn(S(o, 0))
    if s is None:
        return "the result does not depend on the argument"
    return None if o.A.rat(o.ret).const() in {1: (1,), -1: (-1,), 0: (0, 1), GE: (1,), LE: ()}.get(s, ()) else "wrong sign"


def unit(n):
    def spec(o):
        a, r = V(o, 0, n), o.outs(0, n)
        for i in range(n):
            for j in range(i):
                if not (r[i] * a[j] - r[j] * a[i]).iszero():
                    return "the direction changes"
        if (dot(r, r) - 1).iszero():
            return None
        return None if o.known else "the result does not have length one"
    spec.some = lambda o: None if zero([dot(o.outs(0, n), o.outs(0, n)) - 1]) else "the result never has length one"
    return spec


def collinear(n):
    def spec(o):
        a, b, c, tol = V(o, 0, n), V(o, 1, n), V(o, 2, n), S(o, 3)
        ab, ac = sub(b, a), sub(c, a)
        l1, l2 = dot(ab, ab), dot(ac, ac)
        s1, s2 = o.sgn(l1 - tol), o.sgn(l2 - tol)
        if s1 in (-1, LE) or s2 in (-1, LE):
            return None if truthy(o) else "coinciding points are not collinear"
        cosine = dot(ab, ac) / (o.A.sqrt(l1) * o.A.sqrt(l2))
        ab_ = lambda x: Rat(o.A, {((o.A.atom(("abs", x.key())), 1),): 1})
        s = None
        for q in (cosine, -cosine):
            for inner in (ab_(q) - 1, 1 - ab_(q)):
                s = o.sgn(ab_(inner) - tol) if s is None else s
        for form in sum_forms(o, ab, ac, l1, l2):
            s = o.sgn(form - tol) if s is None else s
        if s is None:
            return "the result does not depend on the angle between the edges"
        if not truthy(o) and not all(o.ge0(x - tol) or o.sgn(x) in (1, NE) for x in (l1, l2)):
            return "coinciding points are not collinear"
        return None if truthy(o) == (s in (-1, LE)) else "the result is the wrong way round"
    return spec


def sum_forms(o, ab, ac, l1, l2):
    """the cosine as the sum of products of normalised components"""
    s1, s2 = o.A.sqrt(l1), o.A.sqrt(l2)
    q = dot([x / s1 for x in ab], [y / s2 for y in ac])
    w = lambda x: Rat(o.A, {((o.A.atom(("abs", x.key())), 1),): 1})
    return [w(w(q) - 1), w(w(-q) - 1), w(1 - w(q))]


def between(n):
    def spec(o):
        a, b, c, tol = V(o, 0, n), V(o, 1, n), V(o, 2, n), S(o, 3)
        ab, ac, bc = sub(b, a), sub(c, a), sub(c, b)
        L, A2, B2 = dot(ab, ab), dot(ac, ac), dot(bc, bc)
        e1, e2 = o.sgn(A2 - tol * L), o.sgn(B2 - tol * L)
        near = e1 in (0, -1, LE) or e2 in (0, -1, LE)
        t = dot(ab, ac)
        if truthy(o):
            if near:
                return None
            if o.sgn(L - tol) in (-1, 0, LE):
                return "a point away from a degenerate segment is between its ends"
            if o.sgn(t) not in (1, GE):
                return "a point before the first end is between the ends"
            if not o.le0(A2 - L):
                return "a point beyond the second end is between the ends"
            w = lambda x: Rat(o.A, {((o.A.atom(("abs", x.key())), 1),): 1})
            q = t * t - L * A2
            s = [o.sgn(w(x) - tol * L) for x in (q, -q)]
            return None if -1 in s or LE in s else "a point off the line is between the ends"
        if near:
            return "an end is not between the ends"
        return None
    return spec


def sqr_norm(n):
    def spec(o):
        a = V(o, 0, n)
        return None if (o.A.rat(o.ret) - dot(a, a)).iszero() else "the result is not the squared length"
    return spec


def det2(I, args):
    a, b, c = ([I.load(I.at(x, j)) for j in range(2)] for x in args)
    m = lambda x, y: ("b", "-", x, y)
    return m(("b", "*", m(a[0], c[0]), m(b[1], c[1])), ("b", "*", m(a[1], c[1]), m(b[0], c[0])))


DEFS = [  # name, number of parameters, first template argument or None, definition, rules
    ("closestPointOnSegment2D", 4, None, closest_on_segment, None),
    ("rayPlaneIntersection", 6, None, ray_plane, None),
    ("raySphereIntersection", 6, None, ray_ball(3), unit_rules(1, 3)),
    ("rayCircleIntersection", 6, None, ray_ball(2), unit_rules(1, 2)),
    ("computeCircumcenter", 4, None, circumcenter(2, 3), None),
    ("computeCircumcenter2d", 4, None, circumcenter(2, 3), None),
    ("computeCircumcenter3d", 5, None, circumcenter(3, 4), None),
    ("computeTriangleCircumcenter3d", 4, None, circumcenter(3, 3, True, True), None),
    ("computeTriangleCentroid2d", 4, None, mean(2, 3), None),
    ("computeTriangleCentroid3d", 4, None, mean(3, 3), None),
    ("computeTetCentroid", 5, None, mean(3, 4), None),
    ("segmentIntersection2D", 6, None, seg_seg, None),
    ("triangleVolume2", 3, None, tri_volume, None),
    ("tetrahedralVolume6", 4, None, tet_volume, None),
    ("tetrahedralVolumeAndCentroid6", 6, None, tet_volume_centroid, None),
    ("aboveBelow", 6, None, side_line, None),
    ("aboveBelow", 9, None, side_plane, None),
    ("compare", 6, None, side_line, None),
    ("compare", 9, None, side_plane, None),
    ("computeNormal", 12, None, normal, None),
    ("zcross_sign", 3, None, zcross, None),
    ("pointPlaneDistance", 3, None, plane_dist, None),
    ("pointLineDistance", 3, None, line_dist, None),
    ("sgn", 1, None, sgn1, None),
    ("unitVector", 1, "2", unit(2), None),
    ("unitVector", 1, "3", unit(3), None),
    ("collinear", 4, "2", collinear(2), None),
    ("collinear", 4, "3", collinear(3), None),
    ("between", 4, "2", between(2), None),
    ("between", 4, "3", between(3), None),
]


def primitives(prog, res):
    for f in sorted(prog.funcs.values(), key=lambda f: f.key):
        if f.body is None or f.cls:
            continue
        s = f.short.split("<")[0]
        for nm, np, ta, spec, rules in DEFS:
            if s != nm or len(f.params) != np:
                continue
            if ta is not None and (f.d.get("ta") or [None])[0] != ta:
                continue
            if any("vector" in p["t"] for p in f.params):
                continue
            decide(prog, res, f, spec, rules)


def decide(prog, res, f, spec, rules, **kw):
    key = "%s|%d|%s" % (f.name, len(f.params), (f.d.get("ta") or [""])[0])
    try:
        outs = outcomes(prog, f, rules, {"orient2d": det2}, **kw)
        res.count("primitives")
        wrong = None
        for o in outs:
            w = spec(o)
            if w and wrong is None:
                wrong = w
        if not wrong and hasattr(spec, "some"):
            ws = [spec.some(o) for o in outs]
            wrong = ws[0] if all(ws) else None
        for o in outs:
            res.count("outcomes")
        if wrong:
            res.bad("defining-identity", f.loc(), f.full, key, "%s: %s" % (f.full, wrong))
        else:
            res.ok("defining-identity", f.loc(), "%s (%d outcomes)" % (f.full, len(outs)))
    except Big:
        res.notes.append("%s undecided: terms too large" % f.full)
    except Und as e:
        res.notes.append("%s undecided: %s" % (f.full, e))


def quantizers(prog, res):
    """dequantize is the inverse of quantize"""
    for f in sorted(prog.funcs.values(), key=lambda f: f.key):
        if f.body is None or f.short != "dequantize" or len(f.params) != 2 or not f.cls:
            continue
        qs = [g for g in prog.funcs.values() if g.cls == f.cls and g.short == "quantize" and len(g.params) == 2 and g.body is not None]
        if len(qs) != 1:
            continue
        n = 3 if "3d" in f.cls else 2
        key = "%s|inverse" % f.cls.split("<")[0]
        try:
            A = Alg()
            I = Interp(prog)
            this = Obj(("this",), f.cls)
            real, ints, back = Obj(("p", 0)), Obj(None, "[]"), Obj(None, "[]")
            I.call(qs[0], this, [("addr", real, 0), ("addr", ints, 0)])
            I.call(f, this, [("addr", ints, 0), ("addr", back, 0)])
            res.count("primitives")
            wrong = None
            for j in range(n):
                if not A.rat(I.load((back, j))).same(A.rat(("x", ("p", 0), K(j)))):
                    wrong = "coordinate %d does not come back when it is quantised and dequantised" % j
            if wrong:
                res.bad("inverse", f.loc(), f.full, key, "%s: %s" % (f.cls, wrong))
            else:
                res.ok("inverse", f.loc(), "%s: dequantize(quantize(x)) = x in %d coordinates" % (f.cls, n))
        except Und as e:
            res.notes.append("%s undecided: %s" % (f.full, e))


def run(prog, res, tier):
    primitives(prog, res)
    quantizers(prog, res)
    res.floor("primitives", 5)
