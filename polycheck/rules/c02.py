"""Asynchronous sends: the buffer of a message is not modified, reallocated or
destroyed, and every request is completed by a wait covering all of them, before
the sending function returns.

Rule (typestate over the inlined CFG): for every asynchronous send with buffer
places B and request places R, (a) every path to the exit passes a wait on R,
(b) the wait covers every element of the request container, (c) no store,
reallocation or deallocation overlaps B on a path from the send to its wait,
except to another element provably selected by a changed index or a later
push_back, (d) the variable owning B outlives the wait."""
from ..ir import AnalysisError, const, expr_str, short, strip_casts, walk
from ..flow import ELEM, Flow, deref_local, is_cont, is_ref, bare
from ..effects import Write, loop_info, loop_conds, prefix, size_of_term, term, writes
from .. import mpi

ASSUMES = ["reserve() before the sends reserves enough for the later push_backs", "distinct pointer parameters do not alias"]
NODE_STABLE = ("std::list<", "std::__cxx11::list<", "std::map<", "std::set<", "std::deque<", "std::multimap<", "std::unordered_map<")


def unit_list(prog, names):
    hit = mpi.functions_reaching(prog, names)
    done = set()
    for key in mpi.roots(prog, hit) + sorted(hit):
        f = prog.funcs[key]
        if f.body is None or key in done:
            continue
        inl = mpi.inline_for(prog, key, hit)
        done |= inl.inlined | {key}
        yield f, inl


def calls_at(fl, n, names):
    return [x for x in fl.subexprs(n) if mpi.mpi_name(x) in names]


def ctype(fl, d):
    return bare(fl.tname(d)).replace("const ", "")


def index_locals(e):
    """locals used as subscripts inside e"""
    r = set()
    for x in walk(e):
        if x["k"] == "idx" or (x["k"] == "opcall" and x["o"] == "[]"):
            for y in walk(x["c"][1]):
                if y["k"] == "ref" and y.get("dk") in ("local", "param"):
                    r.add(y["d"])
    return r


def alias_exprs(fl, e):
    """e plus the initialisers of references it goes through"""
    out, st, seen = [], [e], set()
    while st:
        x = st.pop()
        out.append(x)
        for y in walk(x):
            if y["k"] == "ref" and y.get("dk") in ("local", "param") and is_ref(fl.tname(y["d"])) and y["d"] not in seen:
                seen.add(y["d"])
                for df in fl.by_local.get(y["d"], []):
                    if df.e is not None and df.kind == "init":
                        st.append(df.e)
    return out


def fresh_element(fl, s, m, bufe, target):
    """is the element written at m provably a different element from the one sent at s:
    subscripted by an index updated on every path s..m, or back() of a container
    that grew in between"""
    be = alias_exprs(fl, bufe)
    te = alias_exprs(fl, target)
    bi = set().union(*[index_locals(x) for x in be]) if be else set()
    ti = set().union(*[index_locals(x) for x in te]) if te else set()
    for d in bi & ti:
        ups = {x.node for x in fl.by_local.get(d, []) if x.kind not in ("param",)}
        if not reach_avoiding(fl, s, m, ups):
            return True
    def tails(xs):
        return {frozenset(fl.obj(y, s)) for x in xs for y in walk(x) if y["k"] == "mcall" and (y.get("mn") or "") in ("back", "emplace_back")}
    for A in tails(be):
        for B in tails(te):
            if A & B:
                grow = set()
                for n in fl.cfg.livenodes():
                    for w in writes(fl, n):
                        if w.kind in ("mut:push_back", "mut:emplace_back") and w.places & A:
                            grow.add(n)
                if grow and not reach_avoiding(fl, s, m, grow):
                    return True
    return False


def reach_avoiding(fl, a, b, avoid):
    seen, st = set(), [x for x, _ in a.succ]
    av = {n.i for n in avoid}
    while st:
        n = st.pop()
        if n.i in seen:
            continue
        seen.add(n.i)
        if n is b:
            return True
        if n.i in av:
            continue
        st.extend(x for x, _ in n.succ)
    return False


def emptiness_edge(fl, n, reqplaces):
    """label of the branch on which the request container is known to be empty"""
    e = strip_casts(n.e)
    k = e["k"]

    def is_req(x):
        return x["k"] == "mcall" and (fl.obj(x, n) & reqplaces)

    def sizeish(x):
        t = term(fl, x, n)
        if size_of_term(t) is not None:
            for y in walk(x):
                if y["k"] == "mcall" and (y.get("mn") == "size") and is_req(y):
                    return True
            d = deref_local(x)
            if d is not None:
                for df in fl.reaching(n, d):
                    if df.e is not None and any(y["k"] == "mcall" and y.get("mn") == "size" and (fl.obj(y, df.node) & reqplaces) for y in walk(df.e)):
                        return True
        return False
    if k == "mcall" and e.get("mn") == "empty" and is_req(e):
        return True
    if k == "bin" and len(e["c"]) == 2:
        for a, b, sw in ((e["c"][0], e["c"][1], False), (e["c"][1], e["c"][0], True)):
            if sizeish(a) and const(b) is not None:
                v, o = const(b), e["o"]
                if sw:
                    o = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(o, o)
                if (o, v) in ((">", 0), ("!=", 0), (">=", 1)):
                    return False
                if (o, v) in (("==", 0), ("<", 1), ("<=", 0)):
                    return True
    if sizeish(e):
        return False
    return None


def run(prog, res, tier):
    n = 0
    for f, inl in unit_list(prog, mpi.ASYNC_SENDS):
        analyse(prog, res, f, Flow(inl))
    res.floor("asynchronous_sends", 4)
    res.floor("waits", 2)


def analyse(prog, res, f, fl):
    cfg = fl.cfg
    inl = fl.inl
    sends, waits = [], []
    for n in cfg.livenodes():
        for c in calls_at(fl, n, mpi.ASYNC_SENDS):
            sends.append((n, c))
        for c in calls_at(fl, n, mpi.WAITS):
            waits.append((n, c))
    if not sends:
        return
    res.count("functions")
    W = {}
    for n, c in waits:
        i = 1 if mpi.mpi_name(c) in ("MPI_Waitall", "MPI_Waitany", "MPI_Waitsome", "MPI_Testall") else 0
        W.setdefault(n.i, []).append((n, c, fl.pts(c["c"][i], n)))
    wr = {n.i: writes(fl, n) for n in cfg.livenodes()}
    for s, c in sends:
        res.count("asynchronous_sends")
        name = mpi.mpi_name(c)
        buf = fl.pts(c["c"][0], s)
        req = fl.pts(c["c"][6], s)
        reqc = frozenset(p[:-1] if p and p[-1] == ELEM else p for p in req)
        where = inl.loc(c)
        what = "%s(%s -> %s, tag %s) in %s" % (name, expr_str(c["c"][0]), expr_str(c["c"][3]), expr_str(c["c"][4]), f.full)
        kk = "%s|%s|tag %s" % (f.name, expr_str(c["c"][0]), expr_str(c["c"][4]))
        mine = set()
        barrier = set()
        for i, ws in W.items():
            for n, wc, rp in ws:
                rc = frozenset(p[:-1] if p and p[-1] == ELEM else p for p in rp)
                if any(prefix(a, b) or prefix(b, a) for a in rc for b in reqc) and cfg.between(s, n):
                    mine.add((n.i, id(wc)))
                    barrier.add(n.i)
                    # wait(s) inside a loop over the request container complete the loop
                    for L in n.loops:
                        if any(x is L for x in s.loops):
                            continue
                        li = loop_info(fl, L)
                        if li.full and li.container is not None:
                            barrier |= {x.i for x in cfg.livenodes() if x.i in loop_conds(fl, L)}
                            hd = li.head
                            if hd is not None:
                                barrier.add(hd.i)
        # (a) completion on every path
        seen, st, leak = set(), [x for x, _ in s.succ], None
        region = set()
        while st:
            n = st.pop()
            if n.i in seen:
                continue
            seen.add(n.i)
            if n is cfg.exit:
                leak = n
                break
            if n.i in barrier:
                region.add(n.i)
                continue
            region.add(n.i)
            lab0 = emptiness_edge(fl, n, reqc) if n.kind == "cond" and n.e["k"] != "rangecond" else None
            for x, lab in n.succ:
                if lab0 is not None and lab == lab0:
                    continue
                st.append(x)
        res.check(leak is None, "request-completed", where, what, kk,
                  "the request of this %s can reach the end of %s without a wait" % (name, f.full))
        if leak is not None and not mine:
            continue
        # (b) the wait covers every request
        for i, ws in W.items():
            for n, wc, rp in ws:
                if (n.i, id(wc)) not in mine or mpi.mpi_name(wc) != "MPI_Waitall":
                    continue
                cnt = wc["c"][0]
                okc, why = count_covers(fl, cnt, n, reqc, [x for x, _ in sends])
                res.check(okc, "wait-covers-all-requests", inl.loc(wc), "%s for %s" % (expr_str(wc), what), kk + "|" + expr_str(cnt),
                          "MPI_Waitall count '%s' %s" % (expr_str(cnt), why))
                st_e = strip_casts(wc["c"][1])
                t = term(fl, st_e, n)
                if t[0] == "u" and t[1] == "&" and t[2][0] == "x" and t[2][2] != ("k", 0):
                    res.bad("wait-covers-all-requests", inl.loc(wc), what, kk + "|start", "MPI_Waitall does not start at the first request")
        # (c) stability
        bad = []
        after = region | {s.i}
        for i in sorted(region):
            n = cfg.nodes[i]
            if n.i in {w[0] for w in mine} :
                continue
            for w in wr[i]:
                if w.e is c:
                    continue
                if mpi.mpi_name(w.e) in mpi.ASYNC_SENDS or mpi.mpi_name(w.e) in mpi.WAITS:
                    continue
                if any(conflict(fl, s, n, c, w, p, q) for p in buf for q in w.places):
                    bad.append((n, w))
        for n, w in bad:
            res.bad("buffer-stable", inl.loc(w.e), what, kk + "|" + expr_str(w.e)[:60],
                    "'%s' may change or move the buffer '%s' sent at %s before the send is completed (in %s)" %
                    (expr_str(w.e)[:80], expr_str(c["c"][0]), where, f.full))
        if not bad:
            res.ok("buffer-stable", where, what)
        # (d) lifetime
        dead = None
        for p in buf:
            if p[0][0] != "L":
                continue
            d = p[0][1]
            decl = [x for x in cfg.nodes if x.kind == "var" and x.e.get("d") == d]
            if not decl or decl[0].e.get("static"):
                continue
            sc = decl[0].scope
            if decl[0].i in region:
                dead = (d, "is re-created on the next iteration")
            for i, cid in mine:
                if cfg.nodes[i].scope[:len(sc)] != sc:
                    dead = (d, "goes out of scope")
        res.check(dead is None, "buffer-outlives-send", where, what, kk,
                  "the buffer '%s' %s before the wait that completes the send" % (fl.vname(dead[0]) if dead else "", dead[1] if dead else ""))
    res.count("waits", len(waits))


def count_covers(fl, e, n, reqc, sendnodes):
    t = term(fl, e, n)
    X = size_of_term(t)
    if X is not None:
        # the size must be taken of the request container, after the last send
        d = deref_local(e)
        exprs = [(e, n)]
        if d is not None:
            exprs = [(x.e, x.node) for x in fl.reaching(n, d) if x.e is not None]
        for x, xn in exprs:
            hit = False
            for y in walk(x):
                if y["k"] == "mcall" and y.get("mn") in ("size", "end", "begin"):
                    o = fl.obj(y, xn)
                    if any(prefix(a, b) or prefix(b, a) for a in o for b in reqc):
                        hit = True
            if x["k"] == "inl" or any(y["k"] == "inl" for y in walk(x)):
                hit = True
            if not hit:
                return False, "is the size of another container"
            if xn is not n:
                for s in sendnodes:
                    if fl.cfg.between(xn, s) and fl.cfg.between(s, n, stop={xn}):
                        return False, "was taken before the last send"
        return True, ""
    d = deref_local(e)
    if d is not None:
        ds = fl.by_local.get(d, [])
        ups = [x for x in ds if x.kind == "upd"]
        ini = [x for x in ds if x.kind in ("init", "asgn")]
        if ups and all(x.e["k"] in ("un", "opcall") and x.e["o"] == "++" for x in ups) and all(const(x.e) == 0 for x in ini):
            # one increment per send: every send must reach an increment before the next send
            for s in sendnodes:
                if not any(s.scope == x.node.scope or x.node is s for x in ups):
                    return False, "is not incremented with every send"
            return True, ""
    v = const(e)
    if v is not None:
        return False, "is a constant"
    return False, "is not the number of requests"


def conflict(fl, s, m, c, w, p, q):
    """does the write w to place q disturb the pending buffer place p"""
    if w.kind in ("mut:reserve",):
        return False
    if not (prefix(q, p) or (prefix(p, q) and w.kind in ("asgn", "upd") or prefix(p, q) and w.kind.startswith(("algo:", "byref:")))):
        return False
    if w.kind in ("asgn", "upd") or w.kind.startswith(("algo:", "byref:")):
        if fresh_element(fl, s, m, c["c"][0], w.target):
            return False
        # appending through back_inserter: growth of the container
        if w.kind.startswith("algo:") and any(y["k"] == "call" and short(y.get("n", "")) == "back_inserter" for y in walk(w.target)):
            pass
        return True
    if w.kind == "delete":
        return True
    mname = w.kind.split(":", 1)[1]
    if mname in ("push_back", "emplace_back", "push_front", "push", "insert", "emplace", "operator[]", "splice"):
        root_t = w.target.get("t") or ""
        b = bare(root_t)
        if b.startswith(NODE_STABLE) and not (b.startswith("std::deque<") and mname in ("insert", "emplace")):
            # references to existing nodes stay valid
            return False
        rest = p[len(q):]
        if rest.count(ELEM) > 1:
            return fresh_or(fl, s, m, c, w)
        # vector growth: allowed when capacity was reserved before the send
        for n in fl.cfg.livenodes():
            for x in writes(fl, n):
                if x.kind == "mut:reserve" and q in x.places and not reach_avoiding(fl, fl.cfg.entry, s, {n}):
                    return False
        return True
    # clear / erase / assign / resize / swap ...
    return not fresh_element(fl, s, m, c["c"][0], w.target)


def fresh_or(fl, s, m, c, w):
    return False
