"""The list of neighbour ranks and the per-neighbour lists of shared nodes and
shared faces always have the same length, and entry k of each belongs to the
same neighbour.

Rule: symbolic length tokens for the three outer lists are propagated along
every path of every function that changes one of them (callees inlined); the
tokens must agree at every exit; element removal or insertion must be applied to
all three lists at the same index in the same control region; none of the lists
may be reordered on its own once they are associated; removal inside a loop must
not skip entries."""
from ..ir import AnalysisError, const, expr_str, short, strip_casts, walk
from ..flow import ELEM, Flow, deref_local
from ..effects import loop_info, size_of_term, term, writes
from .. import mpi
from .c03 import Ctl

FIELDS = ("neighborDomains", "sharedNodes", "sharedFaces")
ASSUMES = ["the three lists agree (or are all empty) when an editing operation starts"]
GROW = {"push_back", "emplace_back"}
EDIT = {"erase", "insert", "emplace", "pop_back"}


def outer(p):
    """(mesh place, field) if p is one of the lists itself"""
    if p[-1] in FIELDS:
        return p[:-1], p[-1]
    return None


def outer_elem(p):
    if len(p) >= 2 and p[-1] == ELEM and p[-2] in FIELDS:
        return p[:-2], p[-2]
    return None


def touches(prog):
    for f in prog.funcs.values():
        if f.body is None:
            continue
        if any(n["k"] == "mem" and n["n"] in FIELDS and (n.get("cls") or "").split("<")[0].endswith("Tessellation") for n in f.nodes()):
            yield f.key


def run(prog, res, tier):
    direct = set(touches(prog))
    writers = set()
    for k in direct:
        f = prog.funcs[k]
        from ..ir import Inliner
        fl = Flow(Inliner(prog, lambda t, n: False).run(f))
        for n in fl.cfg.livenodes():
            for w in writes(fl, n):
                if any(outer(p) for p in w.places) and w.kind not in ("mut:reserve",) and not w.kind.startswith("byref:serialize"):
                    writers.add(k)
                    break
    hit = mpi.closure(prog, writers)
    # only functions that change the lists, and those that call such functions directly
    names = {prog.funcs[k].full for k in writers}
    res.cover["functions_changing_the_lists"] = len(names)
    keep = set(writers)
    cg = prog.callgraph()
    # callers are needed only when the callee changes just some of the lists
    partial = set()
    for f, inl in mpi.units(prog, keep):
        bad = analyse(prog, res, f, Flow(inl), False)
        if bad:
            partial.add(f.key)
    todo, seen = set(partial), set()
    level = 0
    while todo and level < 4:
        level += 1
        nxt = set()
        for k in sorted(todo):
            callers = {c for c in cg if k in mpi.single_callees(prog, prog.funcs[c])} - {k}
            if not callers or prog.funcs[k].d.get("access") == "public" and False:
                analyse(prog, res, prog.funcs[k], Flow(mpi.inline_for(prog, k, keep)), True)
                continue
            for c in callers:
                if c in seen:
                    continue
                seen.add(c)
                keep.add(c)
                bad = analyse(prog, res, prog.funcs[c], Flow(mpi.inline_for(prog, c, keep)), False)
                if bad:
                    nxt.add(c)
        todo = nxt
    for k in sorted(todo):
        analyse(prog, res, prog.funcs[k], Flow(mpi.inline_for(prog, k, keep)), True)
    res.floor("list_updates", 6)


def analyse(prog, res, f, fl, report):
    """returns True if an exit with differing lengths exists (reported only if report)"""
    cfg = fl.cfg
    inl = fl.inl
    events = {}
    meshes = set()
    for n in cfg.livenodes():
        for w in writes(fl, n):
            for p in w.places:
                o = outer(p)
                if o is None and w.kind.startswith("algo:") and "insert" in (w.target.get("t") or "") + expr_str(w.target):
                    o = outer_elem(p)     # written through an inserter: the list itself grows
                if o is None:
                    continue
                k = w.kind
                if k in ("mut:reserve",):
                    continue
                events.setdefault(n.i, []).append((w, o[0], o[1]))
                meshes.add(o[0])
    bad = False
    dom = pdom = None
    for m in sorted(meshes, key=repr):
        # ---- association events
        lst = [(cfg.nodes[i], w, fd) for i, ws in events.items() for (w, mm, fd) in ws if mm == m]
        res.count("list_updates", len(lst))
        res.count("functions")
        edits = []
        for n, w, fd in lst:
            if w.kind.startswith("mut:") and w.kind[4:] in EDIT:
                edits.append((n, w, fd, edit_index(fl, n, w)))
        handled = set()
        for n, w, fd, ix in edits:
            if ix == "range":
                continue
            for other in FIELDS:
                if other == fd:
                    continue
                mates = [e for e in edits if e[2] == other and e[1].kind == w.kind and e[3] == ix and same_region(fl, n, e[0])]
                res.check(bool(mates), "edited-together", inl.loc(w.e), "%s of %s in %s" % (w.kind[4:], fd, f.full),
                          "%s|%s|%s|%s" % (f.name, fd, w.kind, other),
                          "'%s' changes %s but the same entry of %s is not changed with it" % (expr_str(w.e), fd, other))
            handled.add((n.i, id(w.e)))
            # skipping
            for L in n.loops:
                li = loop_info(fl, L)
                if li.var is not None and li.step == 1 and ix and mentions(ix, li.var) and w.kind == "mut:erase":
                    ups = getattr(li, "updates", [])
                    if all(u.kind == "upd" and u.e["o"] == "++" for u in ups):
                        # unconditional ++ after an erase skips the next entry
                        if any(cfg.between(n, u.node) for u in ups) and not any(cond_only(fl, n, u) for u in ups):
                            res.bad("no-entry-skipped", inl.loc(w.e), "erase in loop", "%s|%s" % (f.name, fd),
                                    "erasing entry i while the loop goes on to i+1 skips an entry (and runs past the shortened list) in %s" % f.full)
        # ---- tokens
        # one entry of fd appended per entry of another list: same length after the loop
        ctl = _Ctl(fl)
        per_entry, at_head = set(), {}
        for n, w, fd in lst:
            k = w.kind
            if not (k.startswith("mut:") and k[4:] in GROW):
                continue
            for L in reversed(n.loops):
                li = loop_info(fl, L)
                fds = [x for x in FIELDS if x != fd and loop_over(fl, li, m, x)]
                if fds and li.full and li.head is not None and n.loops[-1] is L and not ctl.controllers_in(n, L) \
                        and sum(1 for n2, w2, fd2 in lst if fd2 == fd and any(x is L for x in n2.loops)) == 1:
                    per_entry.add((n.i, id(w.e)))
                    at_head.setdefault(li.head.i, []).append((fd, fds[0]))

        def transfer(n, st):
            out = st
            for fd, src in at_head.get(n.i, ()):
                out = frozenset(setk(s, fd, tokof(s, src)) if tokof(s, fd) in (("I",), ("k", 0), tokof(s, src)) else setk(s, fd, ("at", n.i)) for s in out)
            if n.i not in events:
                return out
            for w, mm, fd in events[n.i]:
                if mm != m:
                    continue
                out = frozenset(step(s, n, w, fd) for s in out)
            return out

        def tokof(s, fd):
            return s[FIELDS.index(fd)]

        def setk(s, fd, t):
            i = FIELDS.index(fd)
            return s[:i] + (t,) + s[i + 1:]

        def size_source(e, n):
            """field of the same mesh whose length e is"""
            r = set()
            X = None
            exprs = [(e, n)]
            d = deref_local(e)
            if d is not None:
                exprs = [(x.e, x.node) for x in fl.reaching(n, d) if x.e is not None]
            for x, xn in exprs:
                t = size_of_term(term(fl, x, xn))
                if t is None:
                    return None
                got = None
                if t[0] == "m" and t[2] in FIELDS:
                    got = t[2]
                else:
                    for y in walk(x):
                        if y["k"] == "mcall" and y.get("mn") in ("size", "end"):
                            for p in fl.obj(y, xn):
                                o = outer(p)
                                if o and o[0] == m:
                                    got = o[1]
                r.add(got)
            return r.pop() if len(r) == 1 else None

        def step(s, n, w, fd):
            k = w.kind
            fresh = ("at", n.i)
            if k == "mut:clear":
                return setk(s, fd, ("k", 0))
            if k == "mut:resize" or k == "mut:assign":
                a = w.e["c"][1]
                src = size_source(a, n)
                if src is not None:
                    return setk(s, fd, tokof(s, src))
                t = term(fl, a, n)
                return setk(s, fd, ("k", t[1]) if t[0] == "k" else ("sz", t))
            if k == "asgn":
                x = strip_casts(w.rhs)
                ps = fl.lv(x, n) if x["k"] in ("ref", "mem", "opcall") else ()
                if x["k"] == "ctor" and len(x["c"]) >= 1:
                    src = size_source(x["c"][0], n)
                    if src is not None:
                        return setk(s, fd, tokof(s, src))
                    t = size_of_term(term(fl, x["c"][0], n))
                    if t is not None:
                        return setk(s, fd, ("sz", ("M", "size", t)))
                if x["k"] == "ctor" and not [y for y in x["c"] if y["k"] != "x"]:
                    return setk(s, fd, ("k", 0))
                g = grown(fl, x, n)
                if g is not None:
                    return setk(s, fd, g)
                if x["k"] in ("ref", "mem"):
                    from ..effects import size_events
                    ev = size_events(fl, n, fl.lv(x, n))
                    if len(ev) == 1 and None not in ev:
                        t = list(ev)[0]
                        X = size_of_term(t)
                        if X is not None and X[0] == "m" and X[2] in FIELDS:
                            return setk(s, fd, tokof(s, X[2]))
                        if t[0] == "k":
                            return setk(s, fd, t)
                    # same source list for several fields: equal sizes only if sized alike
                    return setk(s, fd, ("sz", ("M", "size", term(fl, x, n))) )
                return setk(s, fd, fresh)
            if k.startswith("mut:") and k[4:] in EDIT and (n.i, id(w.e)) in handled:
                return s        # checked by edited-together
            if k.startswith("mut:") and k[4:] in GROW or (k.startswith("algo:") and "inserter" in expr_str(w.target)):
                if (n.i, id(w.e)) in per_entry:
                    return s        # accounted for at the head of the loop
                # several lists growing together in one loop iteration
                for L in reversed(n.loops):
                    mates = [e for e in lst if e[0].loops and e[0].loops[-1] is n.loops[-1] and e[1].kind == k and same_region(fl, n, e[0])]
                    if {e[2] for e in mates} == set(FIELDS):
                        return setk(s, fd, ("with", id(n.loops[-1])))
                    break
                mates = [e for e in lst if e[1].kind == k and same_region(fl, n, e[0])]
                if {e[2] for e in mates} | {fd} == set(FIELDS):
                    return setk(s, fd, ("with", min(e[0].i for e in mates)))
                return setk(s, fd, fresh)
            if k.startswith("algo:") and k[5:] in ("sort", "reverse", "rotate", "unique", "stable_sort", "random_shuffle", "shuffle"):
                return s
            if k == "mut:swap":
                ops = [y for y in w.e["c"]]
                for y in ops:
                    g = grown(fl, y, n)
                    if g is not None:
                        return setk(s, fd, g)
                return setk(s, fd, fresh)
            if k.startswith("byref:"):
                return setk(s, fd, fresh)
            return s
        init = frozenset([(("I",), ("I",), ("I",))])
        ins = cfg.forward(init, transfer, lambda a, b: a | b)
        ex = ins.get(cfg.exit.i, frozenset())
        diff = [s for s in ex if len(set(s)) != 1]
        where = "%s:%d" % (f.rel, f.line)
        if not diff:
            res.ok("same-length-at-exit", where, "lists of '%s' in %s" % (fl.show(m), f.full))
        else:
            bad = True
            if report:
                s = sorted(diff, key=repr)[0]
                pos = {}
                for fd, t in zip(FIELDS, s):
                    if t[0] == "at":
                        pos[fd] = "changed at " + inl.loc(cfg.nodes[t[1]].e)
                    elif t == ("I",):
                        pos[fd] = "unchanged"
                    elif t[0] == "k":
                        pos[fd] = "length %s" % t[1]
                    else:
                        pos[fd] = "sized elsewhere"
                res.bad("same-length-at-exit", where, "lists of '%s' in %s" % (fl.show(m), f.full), "%s" % f.name,
                        "on some path %s returns with lists of different length: %s" % (f.full, ", ".join("%s %s" % kv for kv in pos.items())))
        # ---- reordering
        for n in cfg.livenodes():
            for w in writes(fl, n):
                els = [outer_elem(p) for p in w.places if outer_elem(p)]
                els = [o[1] for o in els if o[0] == m]
                if not els:
                    continue
                reorder = w.kind.startswith("algo:") and w.kind[5:] in ("sort", "stable_sort", "reverse", "rotate", "unique", "random_shuffle", "shuffle", "partition", "remove", "remove_if") \
                    or w.kind == "mut:swap"
                if not reorder:
                    continue
                sts = ins.get(n.i, ())
                for fd in els:
                    # lists still as they came in are associated too, unless this function is what fills them
                    built = any(s[FIELDS.index(fd)] != ("I",) for s in sts)
                    tied = [o for o in FIELDS if o != fd and any(s[FIELDS.index(o)] == s[FIELDS.index(fd)] and s[FIELDS.index(fd)] != ("k", 0)
                                                                 and not (built and s[FIELDS.index(fd)] == ("I",)) for s in sts)]
                    res.check(not tied, "not-reordered-alone", inl.loc(w.e), "%s of %s in %s" % (w.kind, fd, f.full), "%s|%s|%s" % (f.name, fd, w.kind),
                              "'%s' reorders %s after %s was filled in the old order" % (expr_str(w.e)[:80], fd, ", ".join(tied)))
    return bad


def grown(fl, e, n):
    """token of a local list that only ever had entries appended: the conditions
    under which that happened"""
    x = strip_casts(e)
    while x["k"] in ("ctor", "call") and x.get("c") and (x["k"] == "ctor" and len(x["c"]) == 1 or short(x.get("n", "")) == "move"):
        x = strip_casts(x["c"][0])
    d = deref_local(x)
    if d is None or fl.vars.get(d, {}).get("param"):
        return None
    defs = [y for y in fl.by_local.get(d, []) if y.kind in ("init", "asgn", "range", "byref")]
    for y in defs:
        z = strip_casts(y.e)
        if not (y.kind == "init" and z["k"] in ("ctor", "init") and not [q for q in z.get("c") or [] if q["k"] != "x"]):
            return None
    place = (("L", d),)
    sig = []
    ctl = _Ctl(fl)
    for m in fl.cfg.livenodes():
        for w in writes(fl, m):
            if place not in w.places or w.kind == "mut:reserve" or m is n:
                continue
            if w.kind[4:] not in GROW:
                return None
            sig.append((tuple(id(L) for L in m.loops), tuple(sorted((g.i, tuple(sorted(map(repr, l)))) for g, l in ctl.controllers(m)))))
    return ("grown", tuple(sorted(sig))) if sig else None


class _Ctl(Ctl):
    def controllers_in(self, n, L):
        """conditions inside loop L (not loop conditions) that can skip n"""
        from .c03 import loop_conds_cached
        r = []
        for g, labs in self.controllers(n):
            if any(g.i in loop_conds_cached(self.fl, x) for x in n.loops):
                continue
            if any(x is L for x in g.loops):
                r.append(g)
        return r


def loop_over(fl, li, m, fd):
    for p in li.places:
        if p == m + (fd,):
            return True
    t = li.container
    return t is not None and t[0] == "m" and t[2] == fd


def edit_index(fl, n, w):
    """term of the position edited: begin()+i -> i"""
    e = w.e
    if e["k"] != "mcall" or len(e["c"]) < 2:
        return ("back",)
    if len(e["c"]) >= 3 and w.kind == "mut:erase":
        return "range"
    t = term(fl, e["c"][1], n)
    def strip(t):
        if t[0] in ("o", "b") and t[1] == "+":
            a, b = t[2], t[3]
            if a[0] == "M" and a[1] in ("begin", "cbegin"):
                return b
            if b[0] == "M" and b[1] in ("begin", "cbegin"):
                return a
        if t[0] == "M" and t[1] in ("begin", "cbegin", "end", "cend"):
            return (t[1].lstrip("c"),)
        if t[0] == "C" and len(t) >= 5 and short(t[1]) == "next":
            return t[4]
        return t
    return strip(t)


def mentions(t, d):
    if isinstance(t, tuple):
        if len(t) >= 2 and t[0] == "v" and t[1] == d:
            return True
        return any(mentions(x, d) for x in t[1:])
    return False


def same_region(fl, a, b):
    """a and b execute under the same conditions (control equivalent)"""
    if a is b:
        return True
    c = fl._memo.get("ctlset")
    if c is None:
        c = fl._memo["ctlset"] = (_Ctl(fl), {})
    ctl, memo = c
    for n in (a, b):
        if n.i not in memo:
            memo[n.i] = {(g.i, tuple(map(repr, l))) for g, l in ctl.controllers(n)}
    return memo[a.i] == memo[b.i] and tuple(map(id, a.loops)) == tuple(map(id, b.loops))


def cond_only(fl, n, u):
    """is the update skipped after the erase (if/else style loop)"""
    # erase and increment in different arms: u does not follow n in the same iteration
    h = loop_info(fl, n.loops[-1]).head
    seen, st = set(), [x for x, _ in n.succ]
    while st:
        x = st.pop()
        if x.i in seen or (h is not None and x is h):
            continue
        seen.add(x.i)
        if x is u.node:
            return False
        st.extend(y for y, _ in x.succ)
    return True
