"""Write effects, value terms and loop shapes shared by the rules."""
from .flow import ELEM, Flow, MUTATORS, deref_local, is_arr, is_cont, is_iter, is_ptr, is_ptrlike, is_ref, is_scalar, bare
from .ir import const, expr_str, kids, short, strip_casts, walk

# std algorithms: indices of iterator arguments written through
ALGO_OUT = {
    "copy": (2,), "copy_if": (2,), "copy_backward": (2,), "transform": None, "fill": (0,), "fill_n": (0,), "generate": (0,),
    "sort": (0,), "stable_sort": (0,), "partial_sort": (0,), "nth_element": (0,), "unique": (0,), "reverse": (0,), "rotate": (0,),
    "remove": (0,), "remove_if": (0,), "replace": (0,), "replace_if": (0,), "iota": (0,), "random_shuffle": (0,), "shuffle": (0,),
    "set_intersection": (4,), "set_difference": (4,), "set_union": (4,), "set_symmetric_difference": (4,), "merge": (4,), "inplace_merge": (0,),
    "unique_copy": (2,), "remove_copy": (2,), "swap_ranges": (0, 2), "iter_swap": (0, 1), "partition": (0,), "stable_partition": (0,),
    "partial_sum": (2,), "adjacent_difference": (2,), "copy_n": (2,), "generate_n": (0,), "inclusive_scan": (2,), "uninitialized_copy": (2,),
    "memcpy": (0,), "memset": (0,), "memmove": (0,), "strcpy": (0,), "strncpy": (0,), "snprintf": (0,), "sprintf": (0,), "push_heap": (0,),
    "pop_heap": (0,), "make_heap": (0,), "sort_heap": (0,), "move_backward": (2,), "qsort": (0,),
}


class Write:
    __slots__ = ("node", "e", "kind", "places", "rhs", "target")

    def __init__(self, node, e, kind, places, rhs=None, target=None):
        self.node, self.e, self.kind, self.places, self.rhs, self.target = node, e, kind, places, rhs, target


ASG = ("=", "+=", "-=", "*=", "/=", "|=", "&=", "^=", "<<=", ">>=", "%=")


def writes(fl, n):
    """all stores performed at a CFG node.  kinds: asgn, upd, mut:<m>, byref:<f>, algo:<f>, delete"""
    out = []

    def go(e):
        if e is None or e["k"] == "inl":
            return
        k = e["k"]
        c = e.get("c") or []
        if k == "lambda":
            b = e.get("body")
            for x in walk(b):
                if x["k"] == "asgn" or (x["k"] == "un" and x["o"] in ("++", "--")) or x["k"] == "mcall" and not x.get("cm"):
                    one(x)
            return
        for x in kids(e):
            go(x)
        one(e)

    def one(e):
        k = e["k"]
        c = e.get("c") or []
        if k == "asgn" or (k == "opcall" and e["o"] in ASG and len(c) == 2):
            out.append(Write(n, e, "asgn" if e["o"] == "=" else "upd", fl.lv(c[0], n), c[1], c[0]))
        elif k in ("un", "opcall") and e["o"] in ("++", "--"):
            out.append(Write(n, e, "upd", fl.lv(c[0], n), None, c[0]))
        elif k == "opcall" and e["o"] in ("<<", ">>"):
            if e["o"] == ">>" and len(c) == 2 and "stream" in (c[0].get("t") or ""):
                out.append(Write(n, e, "upd", fl.lv(c[1], n), None, c[1]))
            return
        elif k == "delete":
            out.append(Write(n, e, "delete", fl.pts(c[0], n), None, c[0]))
        if k in ("call", "mcall", "opcall", "ctor"):
            nm = e.get("n", "")
            s = short(nm)
            args = list(c)
            if k == "mcall" or (k == "opcall" and e.get("meth")):
                o = args.pop(0)
                if not e.get("cm") and not e.get("conv") and k == "mcall":
                    s2 = e.get("mn") or s
                    if s2 in MUTATORS or e.get("in"):
                        out.append(Write(n, e, "mut:" + s2, fl.obj(e, n), args[0] if args else None, o))
                elif k == "opcall" and e["o"] == "[]" and not e.get("cm") and "map<" in bare(o.get("t"))[:30]:
                    out.append(Write(n, e, "mut:operator[]", fl.lv(o, n), None, o))
                elif k == "opcall" and e["o"] == "()" and not e.get("cm"):
                    pass
            std = nm.startswith("std::") or not e.get("in") and "::" not in nm
            if s in ALGO_OUT and k == "call" and not e.get("in"):
                idx = ALGO_OUT[s]
                if idx is None:
                    idx = (3,) if len(args) == 5 else (2,)
                for i in idx:
                    if i < len(args):
                        out.append(Write(n, e, "algo:" + s, fl.pts(args[i], n), None, args[i]))
            pm = e.get("pm") or []
            for i, a in enumerate(args):
                m = pm[i] if i < len(pm) else "v"
                if m == "m":
                    if k == "opcall" and e["o"] in ASG:
                        continue
                    if std and s in ("swap",):
                        out.append(Write(n, e, "mut:swap", fl.lv(a, n), None, a))
                    elif std and s in ("back_inserter", "inserter", "front_inserter", "begin", "end", "get", "min", "max", "forward", "move", "addressof",
                                       "ref", "make_pair", "tie", "distance", "make_tuple"):
                        continue
                    else:
                        out.append(Write(n, e, "byref:" + (s or "?"), fl.lv(a, n), None, a))
                elif m == "mp":
                    if std and s in ALGO_OUT:
                        continue
                    if is_iter(a.get("t")) or is_ptr(a.get("t")) or True:
                        if "ompi_" in (a.get("t") or ""):
                            continue
                        if std and not nm.startswith(("MPI_", "PMPIO", "DB", "free", "realloc", "str", "mem", "fread", "qsort")) and nm.startswith("std::"):
                            continue
                        out.append(Write(n, e, "byref:" + (s or "?"), fl.pts(a, n), None, a))
    for e in fl.node_exprs(n):
        go(e)
    return out


def prefix(a, b):
    return len(a) <= len(b) and b[:len(a)] == a


def overlap(A, B):
    return any(prefix(a, b) or prefix(b, a) for a in A for b in B)


# ------------------------------------------------------------------ value terms
def term(fl, e, n, depth=0, seen=()):
    """canonical value term (hashable).  Locals with one reaching value definition
    are replaced by their definition; container reads are by place."""
    if e is None:
        return ("none",)
    v = const(e)
    if v is not None:
        return ("k", v)
    k = e["k"]
    c = e.get("c") or []
    if depth > 12:
        return ("deep", id(e))
    T = lambda x: term(fl, x, n, depth + 1, seen)
    if k == "cast":
        return T(c[0])
    if k == "lit":
        return ("k", e.get("v", e.get("fv", e.get("s", e.get("lk")))))
    if k == "inl":
        rs = {term(fl, x, n2, depth + 1, seen) for n2, x in fl.rets(e)}
        if len(rs) == 1:
            return rs.pop()
        return ("inl", id(e))
    if k == "ref":
        if e.get("dk") in ("local", "param"):
            d = e["d"]
            t = fl.tname(d)
            if is_ref(t):
                ds = [x for x in fl.by_local.get(d, []) if x.kind in ("init",)]
                if len(ds) == 1 and ds[0].i not in seen:
                    return term(fl, ds[0].e, ds[0].node, depth + 1, seen + (ds[0].i,))
                return ("v", d)
            ds = fl.reaching(n, d)
            if len(ds) == 1 and ds[0].kind in ("init", "asgn") and ds[0].i not in seen and not is_cont(t) and not is_arr(t):
                return term(fl, ds[0].e, ds[0].node, depth + 1, seen + (ds[0].i,))
            if is_cont(t) or is_arr(t):
                return ("v", d)
            return ("v", d, tuple(sorted(x.i for x in ds)))
        return ("g", e.get("n") or e.get("gk"))
    if k == "this":
        return ("this",)
    if k == "mem":
        return ("m", T(c[0]), e["n"])
    if k == "un":
        if e["o"] == "+":
            return T(c[0])
        return ("u", e["o"], T(c[0]))
    if k in ("bin", "asgn"):
        a, b = T(c[0]), T(c[1])
        o = e["o"]
        if o in ("+", "*", "==", "!=", "&", "|", "^", "&&", "||") and repr(b) < repr(a):
            a, b = b, a
        if o in (">", ">="):
            a, b, o = b, a, {">": "<", ">=": "<="}[o]
        if o == "*" and ("k", 1) in (a, b):
            return b if a == ("k", 1) else a
        return ("b", o, a, b)
    if k == "idx":
        return ("x", T(c[0]), T(c[1]))
    if k == "opcall":
        o = e["o"]
        if o == "[]":
            return ("x", T(c[0]), T(c[1]))
        if o == "*" and len(c) == 1:
            return ("u", "*", T(c[0]))
        if o == "-" and len(c) == 2:
            return ("b", "-", T(c[0]), T(c[1]))
        return ("o", o) + tuple(T(x) for x in c)
    if k == "mcall":
        mn = e.get("mn") or short(e.get("n", ""))
        if e.get("conv"):
            return T(c[0])
        if mn == "front" and len(c) == 1:
            return ("x", T(c[0]), ("k", 0))
        if mn == "at" and len(c) == 2:
            return ("x", T(c[0]), T(c[1]))
        return ("M", mn) + tuple(T(x) for x in c)
    if k == "call":
        nm = e.get("n", "")
        if short(nm) == "distance" and len(c) == 2:
            return ("b", "-", T(c[1]), T(c[0]))
        return ("C", nm, tuple(e.get("ta") or ())) + tuple(T(x) for x in c)
    if k == "ctor" and len(c) == 1:
        return T(c[0])
    if k == "cond":
        return ("?", T(c[0]), T(c[1]), T(c[2]))
    if k == "sizeof":
        return ("sizeof", e.get("at"))
    if k == "ctor":
        return ("K", e.get("t")) + tuple(T(x) for x in c)
    return ("e", id(e))


def size_of_term(t):
    """container term X if t denotes X.size() (or end-begin)"""
    if t[0] == "M" and t[1] == "size" and len(t) == 3:
        return t[2]
    if t[0] == "b" and t[1] == "-" and t[2][0] == "M" and t[3][0] == "M" and t[2][1] in ("end", "cend") and t[3][1] in ("begin", "cbegin") and t[2][2] == t[3][2]:
        return t[2][2]
    return None


# ---------------------------------------------------------------------- loops
class Loop:
    """v runs from `start` to `bound` (exclusive) by `step`.
    container: term of the container traversed (iterator / range / index against size()), or None
    complete: starts at the first element, ends at the last, visits every one, no early exit"""

    def __init__(self, s):
        self.s, self.var, self.start, self.bound, self.step = s, None, None, None, None
        self.container = None
        self.full = False
        self.places = frozenset()
        self.why = ""
        self.breaks = []


def loop_exits(fl, s):
    """CFG nodes inside the loop from which control leaves it other than through its condition"""
    cfg = fl.cfg
    inside = [n for n in cfg.livenodes() if any(x is s for x in n.loops)]
    ids = {n.i for n in inside}
    res = []
    conds = loop_conds(fl, s)
    for n in inside:
        if n.i in conds:
            continue
        for t, lab in n.succ:
            if t.i not in ids:
                res.append((n, t))
    return res, ids


def loop_conds(fl, s):
    """cond nodes of the loop statement's own condition"""
    e = s["c"][1] if s["k"] in ("for", "do") else s["c"][0] if s["k"] == "while" else None
    ids = set()
    if s["k"] == "forrange":
        return {n.i for n in fl.cfg.livenodes() if n.kind == "cond" and n.e["k"] == "rangecond" and n.e.get("s") is s}
    if e is None:
        return ids
    parts = {id(x) for x in walk(e)}
    return {n.i for n in fl.cfg.livenodes() if n.kind == "cond" and id(n.e) in parts}


def loop_head(fl, s):
    for n in fl.cfg.livenodes():
        if n.e is not None and n.e.get("s") is s and (n.kind == "nop" and n.e["k"] == "loophead" or n.kind == "cond" and n.e["k"] == "rangecond"):
            return n
    return None


def loop_info(fl, s):
    key = ("loop", id(s))
    if key in fl._memo:
        return fl._memo[key]
    L = Loop(s)
    fl._memo[key] = L
    exits, ids = loop_exits(fl, s)
    L.breaks = [n for n, t in exits]
    L.ids = ids
    head = loop_head(fl, s)
    L.head = head
    if s["k"] == "forrange":
        rng = s["c"][1]
        n = head
        L.container = term(fl, rng, n)
        L.places = fl.lv(rng, n)
        L.full = not L.breaks
        L.var = s["c"][0].get("d")
        if L.breaks:
            L.why = "left early"
        return L
    conds = [fl.cfg.nodes[i] for i in sorted(loop_conds(fl, s))]
    extra = 0
    for n in conds:
        e = strip_casts(n.e)
        if not (e["k"] in ("bin", "opcall") and e.get("o") in ("!=", "<", "<=", ">", ">=", "not_eq") and len(e["c"]) == 2):
            extra += 1
            continue
        done = False
        for a, b, o in ((e["c"][0], e["c"][1], e["o"]), (e["c"][1], e["c"][0], {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(e["o"], e["o"]))):
            d = deref_local(a)
            if d is None or L.var is not None:
                continue
            ups = [x for x in fl.by_local.get(d, []) if x.node.i in ids and x.kind not in ("init", "none")]
            if not ups:
                continue
            outs = [x for x in fl.reaching(head, d) if x.node.i not in ids]
            L.var, L.updates, L.op = d, ups, o
            L.bound_e, L.bound_n = b, n
            L.bound = term(fl, b, n)
            if len(outs) == 1 and outs[0].kind in ("init", "asgn"):
                L.start_e, L.start_n = outs[0].e, outs[0].node
                L.start = term(fl, outs[0].e, outs[0].node)
            step = set()
            for x in ups:
                if x.kind == "upd" and x.e["k"] in ("un", "opcall") and x.e["o"] in ("++", "--"):
                    step.add(1 if x.e["o"] == "++" else -1)
                elif x.kind == "upd" and x.e["o"] in ("+=", "-=") and const(x.e["c"][1]) is not None:
                    step.add(const(x.e["c"][1]) * (1 if x.e["o"] == "+=" else -1))
                else:
                    step.add(None)
            L.step = step.pop() if len(step) == 1 else None
            done = True
            break
        if not done:
            extra += 1
    if L.var is None:
        L.why = "no recognised induction variable"
        return L
    t, b = L.start, L.bound
    ok = True
    if L.step == 1 and L.op in ("!=", "<", "not_eq"):
        if b[0] == "M" and b[1] in ("end", "cend") and t is not None:
            L.container = b[2]
            if not (t[0] == "M" and t[1] in ("begin", "cbegin") and t[2] == b[2]):
                ok = False
                L.why = "does not start at the first element"
            L.places = frozenset(p[:-1] for p in fl.pts(L.bound_e, L.bound_n) if p and p[-1] == ELEM)
        else:
            L.container = size_of_term(b)
            if t != ("k", 0):
                ok = False
                L.why = "does not start at 0"
    elif L.step == 1 and L.op == "<=" and b[0] == "b" and b[1] == "-" and b[3] == ("k", 1):
        L.container = size_of_term(b[2])
        ok = t == ("k", 0)
    elif L.step == -1:
        # descending: from size()-1 down to -1/0
        st = t if t is not None else ("none",)
        if st[0] == "b" and st[1] == "-" and st[3] == ("k", 1):
            L.container = size_of_term(st[2])
            L.bound, L.start = st[2], ("k", 0)
            ok = (L.op in ("!=", ">") and b == ("k", -1)) or (L.op == ">=" and b == ("k", 0))
        else:
            ok = False
            L.why = "unrecognised descending loop"
    else:
        ok = False
        L.why = "step is not one element at a time"
    if L.breaks:
        ok = False
        L.why = L.why or "left early"
    if extra:
        ok = False
        L.why = L.why or "extra loop condition"
    # the update must happen on every iteration
    L.full = ok
    return L


# ------------------------------------------------------- polynomials over terms
def poly(t):
    """multivariate polynomial {sorted tuple of atoms: coefficient} of a term"""
    if t[0] == "k" and isinstance(t[1], (int, float)) and not isinstance(t[1], bool):
        return {(): t[1]} if t[1] else {}
    if t[0] == "b" and t[1] in ("+", "-"):
        a, b = dict(poly(t[2])), poly(t[3])
        for m, c in b.items():
            a[m] = a.get(m, 0) + (c if t[1] == "+" else -c)
        return {m: c for m, c in a.items() if c}
    if t[0] == "b" and t[1] == "*":
        a, b, r = poly(t[2]), poly(t[3]), {}
        for m, c in a.items():
            for m2, c2 in b.items():
                k = tuple(sorted(m + m2, key=repr))
                r[k] = r.get(k, 0) + c * c2
        return {m: c for m, c in r.items() if c}
    if t[0] == "u" and t[1] == "-":
        return {m: -c for m, c in poly(t[2]).items()}
    return {(t,): 1}


def peq(a, b):
    return poly(a) == poly(b)


def size_events(fl, n, places):
    """terms of the possible sizes of the container at `places` just before CFG node n.
    Returns a set of terms; None inside means unknown (grown element by element)."""
    out = set()
    seen = set()
    st = [p for p, _ in n.pred]
    roots = {p[0][1] for p in places if p[0][0] == "L" and len(p) == 1}

    def cont_src(e, nn):
        """size of the container value of e"""
        x = e
        while x["k"] == "cast":
            x = x["c"][0]
        if x["k"] == "inl":
            r = set()
            for n2, y in fl.rets(x):
                if y["k"] == "ref" or y["k"] == "ctor" and len(y["c"]) == 1:
                    r |= size_events(fl, n2, fl.lv(y, n2))
                else:
                    r |= cont_src(y, n2)
            return r or {None}
        if x["k"] == "ctor":
            a = [y for y in x["c"] if y["k"] != "x"]
            if not a:
                return {("k", 0)}
            if is_scalar(a[0].get("t")) and not is_ptrlike(a[0].get("t")):
                return {term(fl, a[0], nn)}
            if len(a) >= 1 and is_cont(a[0].get("t")):
                return cont_src(a[0], nn)
            return {None}
        if x["k"] in ("ref", "mem", "idx", "opcall", "mcall") and is_cont(x.get("t")):
            return {("M", "size", term(fl, x, nn))}
        if x["k"] == "init" and not x.get("c"):
            return {("k", 0)}
        return {None}
    while st:
        m = st.pop()
        if m.i in seen:
            continue
        seen.add(m.i)
        hit = False
        if m.kind == "var" and m.e.get("d") in roots and not is_ref(m.e.get("t")):
            init = m.e.get("init")
            out |= cont_src(init, m) if isinstance(init, dict) else {("k", 0)}
            hit = True
        else:
            for w in writes(fl, m):
                if not (w.places & places):
                    # assignment to an enclosing container
                    if any(prefix(q, p) and q != p for q in w.places for p in places) and w.kind in ("mut:clear",):
                        continue
                    continue
                if w.kind == "asgn":
                    out |= cont_src(w.rhs, m)
                    hit = True
                elif w.kind in ("mut:resize", "mut:assign"):
                    a = w.e["c"][1]
                    if is_ptrlike(a.get("t")):
                        out.add(None)
                    else:
                        out.add(term(fl, a, m))
                    hit = True
                elif w.kind == "mut:clear":
                    out.add(("k", 0))
                    hit = True
                elif w.kind.startswith("mut:") and w.kind[4:] not in ("reserve", "sort", "reverse", "operator[]") or (w.kind.startswith("algo:") and "inserter" in expr_str(w.target)):
                    out.add(None)
                    hit = True
                elif w.kind.startswith("byref:") and is_cont(w.target.get("t")):
                    out.add(None)
                    hit = True
        if not hit:
            if m is fl.cfg.entry:
                out.add(None)
            st.extend(p for p, _ in m.pred)
    return out
