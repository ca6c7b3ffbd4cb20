"""No reference, iterator or pointer is used after what it refers to has gone: not after
its container was grown, emptied or erased from, nor after its owner was deleted or
went out of scope.

Rule (typestate over the inlined CFG of every function): a handle is a reference or an
iterator or pointer bound to an element of a container.  An operation that may move or
destroy the elements of that very container (same place, and the same element where the
container is itself an element) makes the handle stale; a stale handle may not be used
before it is bound again.  The container of a range-based loop is not changed in the
loop.  No function returns a reference or pointer to its own locals or temporaries, and
no pointer into a temporary survives the statement."""
from ..effects import loop_info, term, writes
from ..flow import ELEM, Flow, bare, deref_local, is_iter, is_ptr, is_ref
from ..ir import CFG, expr_str, short, strip_casts, walk
from .. import mpi

ASSUMES = ["operations of the standard library invalidate exactly what the standard says they may"]
MOVE = {"push_back", "emplace_back", "insert", "resize", "assign", "reserve", "clear", "swap", "shrink_to_fit", "push_front", "emplace", "append"}
NODE_STABLE = ("std::list<", "std::__cxx11::list<", "std::map<", "std::set<", "std::multimap<", "std::multiset<", "std::unordered_map<", "std::unordered_set<")
GONE = {"clear", "assign", "swap"}      # also for node-based containers (swap: only across the two objects)


def steps(p):
    """container places a path goes through: every prefix that ends before an element step"""
    for i in range(1, len(p)):
        if p[i] == ELEM:
            yield p[:i], i


class Handle:
    def __init__(self, d, name, kind, e, n):
        self.d, self.name, self.kind, self.e, self.n = d, name, kind, e, n


def cont_expr(e):
    """[(container expression)] an element / iterator expression is taken from, innermost last step first"""
    out = []
    x = strip_casts(e)
    while True:
        k, c = x["k"], x.get("c") or []
        if k == "idx" or k == "opcall" and x["o"] == "[]" and len(c) == 2:
            out.append(c[0])
            x = strip_casts(c[0])
        elif k == "mcall" and (x.get("mn") or "") in ("begin", "end", "cbegin", "cend", "rbegin", "rend", "find", "front", "back", "at", "lower_bound", "upper_bound", "data", "c_str", "insert", "erase"):
            out.append(c[0])
            x = strip_casts(c[0])
        elif k == "mem" and c and not x.get("arrow"):
            x = strip_casts(c[0])
        elif k in ("un",) and x["o"] in ("*", "&"):
            x = strip_casts(c[0])
        elif k in ("bin", "opcall") and x["o"] in ("+", "-") and len(c) == 2:
            x = strip_casts(c[0])
        elif k == "call" and short(x.get("n", "")) in ("find", "lower_bound", "upper_bound", "max_element", "min_element", "find_if", "next", "prev") and c:
            x = strip_casts(c[0])
        elif k == "ctor" and len(c) == 1:
            x = strip_casts(c[0])
        else:
            return out


def analyse(prog, inl, res, seen):
    fl = Flow(inl, CFG(inl.body))
    live = fl.cfg.livenodes()
    # ---- handle bindings: node -> [(d, {(container place, depth): term or None})]
    binds = {}
    names = {}
    for d, ds in fl.by_local.items():
        t = fl.tname(d)
        v = fl.vars.get(d) or {}
        if v.get("param") and not v.get("inlparam"):
            continue
        ref = is_ref(t)
        if not (ref or is_iter(t) or is_ptr(t)):
            continue
        for y in ds:
            if y.kind not in ("init", "asgn") or y.e is None:
                continue
            ps = fl.lv(y.e, y.node) if ref else fl.pts(y.e, y.node)
            if len(ps) != 1:
                continue
            p = next(iter(ps))
            if p[0][0] not in ("L", "A", "T", "G", "N"):
                continue
            cs = [c for c, i in steps(p)]
            if not cs:
                continue
            ce = cont_expr(y.e)
            info = {}
            for j, c in enumerate(reversed(cs)):
                # the term of the container expression tells which of several rows it is
                tm = term(fl, ce[j], y.node) if j < len(ce) else None
                info[c] = tm
            binds.setdefault(y.node.i, []).append((d, info))
            names[d] = fl.vname(d)
    loops = []
    for n in live:
        if n.kind == "cond" and n.e["k"] == "rangecond":
            ps = fl.lv(n.e["c"][0], n)
            if len(ps) == 1:
                p = next(iter(ps))
                if p[0][0] in ("L", "A", "T", "G"):
                    loops.append((n, p, term(fl, n.e["c"][0], n)))
    if not binds and not loops:
        return
    # ---- events
    ev = {}
    for n in live:
        for w in writes(fl, n):
            kind, obj = None, None
            if w.kind.startswith("mut:") and w.kind[4:] in MOVE | {"erase", "pop_back", "pop_front"}:
                kind, obj = w.kind[4:], w.target
            elif w.kind == "asgn" and w.target is not None and any(bare(w.target.get("t")).startswith(x) for x in ("std::vector<", "std::map<", "std::set<", "std::list<", "std::basic_string<", "std::deque<")):
                kind, obj = "assign", w.target
            if kind is None or len(w.places) != 1 or obj is None:
                continue
            t = bare(obj.get("t") or "")
            stable = any(t.startswith(x) or t.startswith(x.replace("std::", "")) for x in NODE_STABLE)
            if stable and kind not in GONE | {"erase"}:
                continue
            if kind in ("pop_back", "pop_front"):
                continue
            ev.setdefault(n.i, []).append((kind, next(iter(w.places)), term(fl, obj, n), stable, w))
    reserved = {p for L in ev.values() for k, p, _, _, _ in L if k == "reserve"}
    relevant = {c for L in binds.values() for _, info in L for c in info} | {p for _, p, _ in loops}
    evs = {i: [x for x in L if x[1] in relevant] for i, L in ev.items()}
    evs = {i: L for i, L in evs.items() if L}
    for i, L in binds.items():
        for d, info in L:
            at = fl.cfg.nodes[i]
            res.cover["handles"] = res.cover.get("handles", 0) + 1
            hits = [(j, x) for j, M in evs.items() for x in M if x[1] in info]
            if not hits:
                continue
            check(fl, inl, res, seen, d, names[d], info, at, hits, reserved)
    for n, p, t in loops:
        res.cover["range loops"] = res.cover.get("range loops", 0) + 1
        s = n.e["s"]
        L = loop_info(fl, s)
        for j, M in evs.items():
            if j not in L.ids:
                continue
            for kind, q, tm, stable, w in M:
                if q != p or ELEM in p and tm != t:
                    continue
                x = fl.cfg.nodes[j]
                back = {y.i for y, _ in n.pred if y.i in L.ids}
                if not reaches(x, n, L.ids):
                    continue
                key = (inl.loc(w.e), "range")
                if key not in seen:
                    seen.add(key)
                    res.bad("container-changed-in-its-loop", inl.loc(w.e), "%s in a loop over it" % expr_str(w.e), "%s|range|%s" % (fl_fn(inl), expr_str(w.target)),
                            "%s changes the container the loop at %s runs over" % (expr_str(w.e), inl.loc(n.e)))


def fl_fn(inl):
    return inl.func.short


def reaches(a, b, ids):
    seen, todo = set(), [s for s, _ in a.succ]
    while todo:
        x = todo.pop()
        if x.i == b.i:
            return True
        if x.i in seen or x.i not in ids:
            continue
        seen.add(x.i)
        todo += [s for s, _ in x.succ]
    return False


def mentions(e, d):
    return any(y["k"] == "ref" and y.get("dk") in ("local", "param") and y.get("d") == d for y in walk(e))


def pure_target(e, d):
    """the expression only binds d anew"""
    return e["k"] == "asgn" and e.get("o") == "=" and deref_local(strip_casts(e["c"][0])) == d or \
        e["k"] == "opcall" and e.get("o") == "=" and len(e["c"]) == 2 and deref_local(strip_casts(e["c"][0])) == d


def check(fl, inl, res, seen, d, name, info, at, hits, reserved):
    ref = is_ref(fl.tname(d))
    rebind = {y.node.i for y in fl.by_local.get(d, []) if y.kind in ("init", "asgn", "none")} | {n.i for n in fl.cfg.livenodes() if n.kind == "var" and n.e.get("d") == d}
    # where this binding is in force
    reach, todo = set(), [s for s, _ in at.succ]
    while todo:
        x = todo.pop()
        if x.i in reach:
            continue
        reach.add(x.i)
        if x.i in rebind:
            continue
        todo += [s for s, _ in x.succ]
    for j, (kind, place, tm, stable, w) in hits:
        if j not in reach:
            continue
        if ELEM in place and info[place] != tm:
            continue
        if kind == "reserve" or place in reserved and kind in ("push_back", "emplace_back"):
            continue
        x = fl.cfg.nodes[j]
        if kind == "erase":
            args = [a for a in (w.e.get("c") or [])[1:]]
            if ref or not any(deref_local(strip_casts(a)) == d for a in args if strip_casts(a)["k"] == "ref"):
                continue
            if stable and not any(strip_casts(a)["k"] == "ref" for a in args):
                continue
        if kind in ("insert",) and stable:
            continue
        if j in rebind and not ref:
            continue      # bound anew by the result of this very operation
        res.cover["handles and changes of their container"] = res.cover.get("handles and changes of their container", 0) + 1
        use = first_use(fl, x, d, rebind, w)
        if use is not None:
            un, ue = use
            key = (inl.loc(w.e), inl.loc(ue), name)
            if key in seen:
                continue
            seen.add(key)
            res.bad("stale-handle", inl.loc(ue), "use of %s" % name, "%s|%s|%s" % (fl_fn(inl), name, kind),
                    "%s (bound at %s) is used after %s at %s, which may move or destroy what it refers to" % (name, inl.loc(at.e) if at.e else "?", expr_str(w.e)[:80], inl.loc(w.e)))
        else:
            res.ok("stale-handle", inl.loc(w.e), "%s not used after %s" % (name, expr_str(w.e)[:60]))


def first_use(fl, x, d, rebind, w):
    seen, todo = set(), [s for s, _ in x.succ]
    while todo:
        y = todo.pop()
        if y.i in seen:
            continue
        seen.add(y.i)
        for e in fl.node_exprs(y):
            if pure_target(e, d):
                rhs = e["c"][1]
                if mentions(rhs, d):
                    return y, e
            elif y.kind == "var" and y.e.get("d") == d:
                pass
            elif e["k"] in ("block", "inl"):
                continue
            elif mentions(e, d):
                # only the object of a later use, not a comparison against nothing
                return y, e
        if y.i in rebind:
            continue
        todo += [s for s, _ in y.succ]
    return None


def returned(prog, f, res):
    """references and pointers to locals, pointers into temporaries"""
    rt = f.d.get("rt") or ""
    if not (is_ref(rt) or is_ptr(rt)):
        return
    inl = mpi.Inliner(prog, lambda t, n: False).run(f)
    fl = Flow(inl, CFG(inl.body))
    isref, isp = is_ref(rt), is_ptr(rt)
    if isref or isp:
        for n in fl.cfg.livenodes():
            if n.kind == "ret" or n.e is not None and n.e.get("k") == "return":
                c = n.e.get("c") or [] if n.e.get("k") == "return" else [n.e]
                for e in c:
                    if e is None:
                        continue
                    ps = fl.lv(e, n) if isref else fl.pts(e, n)
                    res.cover["returned references"] = res.cover.get("returned references", 0) + 1
                    bad = [p for p in ps if p[0][0] == "L" and not (fl.vars.get(p[0][1]) or {}).get("static") and not (fl.vars.get(p[0][1]) or {}).get("param", False) == "x"]
                    if ps and len(bad) == len(ps):
                        res.bad("returns-local", inl.loc(e), expr_str(e), "%s|%s" % (f.short, expr_str(e)), "%s returns a reference or pointer to its own local (%s)" % (f.short, expr_str(e)))


def ours(f):
    return f.body is not None and f.rel.startswith(("src/", "polytope_c/"))


def run(prog, res, tier):
    inval = set()
    for k, f in prog.funcs.items():
        if not ours(f):
            continue
        for x in f.nodes():
            if x["k"] == "mcall" and (x.get("mn") or "") in MOVE | {"erase"}:
                inval.add(k)
                break
    hit = mpi.closure(prog, inval)
    hit = {k for k in hit if k in prog.funcs and ours(prog.funcs[k])}
    seen = set()
    done = 0
    for k in sorted(prog.funcs):
        f = prog.funcs[k]
        if not ours(f):
            continue
        inl = mpi.Inliner(prog, lambda t, n: ours(t) and (t.key in hit or sz(t) < 150), maxdepth=3, budget=30000).run(f)
        analyse(prog, inl, res, seen)
        returned(prog, f, res)
        done += 1
    res.count("functions", done)
    res.floor("functions", 100)
    res.floor("handles", 100)


_SZ = {}


def sz(t):
    if t.key not in _SZ:
        _SZ[t.key] = sum(1 for _ in t.nodes())
    return _SZ[t.key]
