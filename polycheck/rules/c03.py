"""Point-to-point messages are matched: for every tag a rank sends to its
neighbours, every neighbour posts exactly the matching receive (same tag, same
element type, same neighbour list, every neighbour, skipped only for an empty
message), and no rank enters a blocking receive before it has posted the send
its peer is waiting for.

Rule: group the sends and receives of each inlined communicating function by
tag; compare datatypes and the neighbour container their peer rank is drawn
from; the loops around them must be complete traversals of that container; a
guard inside the loop may only test the length of the message itself; sends are
non-blocking and a receive never precedes the sends of its tag."""
from ..ir import const, expr_str, short, strip_casts, walk
from ..flow import Flow, deref_local
from ..effects import loop_info, size_of_term, term
from .. import mpi
from .c02 import calls_at, unit_list

ASSUMES = ["the neighbour relation is symmetric (neighbour lists are computed from the same global information on every rank)"]


def dtype(fl, e, n):
    for x in walk(e):
        if x["k"] == "ref" and x.get("dk") == "global" and x.get("n", "").startswith("ompi_mpi_"):
            return x["n"][9:]
        if x["k"] == "inl":
            s = {dtype(fl, r, n2) for n2, r in fl.rets(x)}
            if len(s) == 1:
                return s.pop()
    d = deref_local(e)
    if d is not None:
        s = {dtype(fl, x.e, x.node) for x in fl.reaching(n, d) if x.e is not None}
        if len(s) == 1:
            return s.pop()
    return None


def peer_fields(fl, e, n):
    """mesh fields the peer rank is read from"""
    _, places, defs = mpi.back_slice(fl, e, n)
    direct = set()
    for i in defs:
        df = fl.defs[i]
        if df.kind == "range":
            for p in fl.lv(df.e, df.node):
                if isinstance(p[-1], str):
                    direct.add(p[-1])
    for p in places:
        if p[-1:] == ("[]",) and len(p) >= 2 and isinstance(p[-2], str):
            direct.add(p[-2])
    return direct


def guards(fl, U, n):
    """conditions inside the innermost neighbour loop that decide whether n runs"""
    return U.get(n.i, set())


class Ctl:
    """control dependence (post-dominator based), shared helper"""

    def __init__(self, fl):
        self.fl = fl
        cfg = fl.cfg
        self.reach = {}

    def controllers(self, n):
        """cond nodes (with the label leading to n) such that one outcome always avoids n within the same iteration"""
        cfg = self.fl.cfg
        inner = n.loops[-1] if n.loops else None
        heads = set()
        for L in n.loops:
            h = loop_info(self.fl, L).head
            if h is not None:
                heads.add(h.i)
        res = []
        for c in cfg.livenodes():
            if c.kind != "cond" or c is n:
                continue
            if inner is not None and not any(x is inner for x in c.loops):
                continue
            labs = {}
            for s, lab in c.succ:
                labs.setdefault(lab, []).append(s)
            if len(labs) < 2:
                continue
            can = {}
            for lab, ss in labs.items():
                seen, st, hit = set(), list(ss), False
                while st:
                    x = st.pop()
                    if x.i in seen:
                        continue
                    seen.add(x.i)
                    if x is n:
                        hit = True
                        break
                    if x.i in heads:
                        continue
                    st.extend(y for y, _ in x.succ)
                can[lab] = hit
            if any(can.values()) and not all(can.values()):
                res.append((c, [l for l, v in can.items() if v]))
        return res


def length_guard(fl, c, labs, cnt, n):
    """guard is a pure non-emptiness test of the message length"""
    e = strip_casts(c.e)
    ct = term(fl, cnt, n)
    atoms = set()

    def collect(t):
        if isinstance(t, tuple):
            X = size_of_term(t) if t and t[0] in ("M", "b") and len(t) >= 3 else None
            if X is not None:
                atoms.add(X)
            if t and t[0] == "v":
                atoms.add(t)
            for y in t[1:]:
                if isinstance(y, tuple):
                    collect(y)
    collect(ct)

    def about(x):
        t = term(fl, x, c)
        X = size_of_term(t)
        if X is not None and X in atoms:
            return True
        if t == ct or t in atoms:
            return True
        # multiple of a length
        if t[0] == "b" and t[1] == "*":
            return any(y in atoms or size_of_term(y) in atoms for y in t[2:])
        return False
    k = e["k"]
    if k == "mcall" and e.get("mn") == "empty":
        return term(fl, e["c"][0], c) in atoms and labs == [False]
    if k == "bin" and len(e["c"]) == 2:
        a, b, o = e["c"][0], e["c"][1], e["o"]
        if const(a) is not None:
            a, b, o = b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(o, o)
        if about(a) and const(b) is not None:
            v = const(b)
            if (o, v) in ((">", 0), ("!=", 0), (">=", 1)):
                return labs == [True]
            if (o, v) in (("==", 0), ("<", 1), ("<=", 0)):
                return labs == [False]
        return False
    if about(e):
        return labs == [True]
    return False


def run(prog, res, tier):
    for f, inl in unit_list(prog, mpi.SENDS | mpi.RECVS):
        analyse(prog, res, f, Flow(inl))
    res.floor("sends", 4)
    res.floor("receives", 4)


def analyse(prog, res, f, fl):
    cfg = fl.cfg
    inl = fl.inl
    ops = []
    for n in cfg.livenodes():
        for c in calls_at(fl, n, mpi.SENDS | mpi.RECVS):
            ops.append((n, c, "send" if mpi.mpi_name(c) in mpi.SENDS else "recv"))
    if not ops:
        return
    res.count("functions")
    ctl = Ctl(fl)
    tags = {}
    for n, c, kind in ops:
        res.count("sends" if kind == "send" else "receives")
        t = term(fl, c["c"][4], n)
        dt = dtype(fl, c["c"][2], n)
        peer = peer_fields(fl, c["c"][3], n)
        tags.setdefault(t, []).append((n, c, kind, dt, peer))
    for t, lst in sorted(tags.items(), key=lambda x: repr(x[0])):
        tag = expr_str(lst[0][1]["c"][4])
        where = inl.loc(lst[0][1])
        S = [x for x in lst if x[2] == "send"]
        R = [x for x in lst if x[2] == "recv"]
        what = "tag %s in %s: %d send site(s), %d receive site(s)" % (tag, f.full, len(S), len(R))
        key = "%s|tag %s" % (f.name, tag)
        if t[0] != "k":
            tainted = peer_dependent(fl, lst[0][1]["c"][4], lst[0][0])
            if tainted:
                res.bad("tag-matched", where, what, key, "the tag '%s' is not the same on sender and receiver" % tag)
                continue
        if not S or not R:
            res.bad("tag-matched", where, what, key, "tag %s is %s in %s" %
                    (tag, "sent but never received" if S else "received but never sent", f.full))
            continue
        res.ok("tag-matched", where, what)
        ds, dr = {x[3] for x in S}, {x[3] for x in R}
        res.check(ds == dr and len(ds) == 1, "element-type-matched", where, what, key,
                  "tag %s is sent as %s and received as %s" % (tag, sorted(map(str, ds)), sorted(map(str, dr))))
        ps = set.union(*[x[4] for x in S]) & set.union(*[x[4] for x in R])
        common = set.intersection(*[x[4] for x in lst]) if lst else set()
        res.check(bool(common), "same-neighbour-list", where, what, key,
                  "the peers of tag %s are not drawn from the same neighbour list on both sides (%s)" %
                  (tag, ", ".join("%s: %s" % (x[2], sorted(x[4])) for x in lst)))
        for n, c, kind, dt, peer in lst:
            w2 = inl.loc(c)
            # complete traversal
            ok, why = False, "is not executed for each neighbour"
            for L in n.loops:
                li = loop_info(fl, L)
                if covers(fl, li, common or peer, n):
                    ok = li.full
                    why = "is not executed for every neighbour (loop: %s)" % li.why
                    break
            res.check(ok, "every-neighbour", w2, "%s tag %s" % (mpi.mpi_name(c), tag), key + "|" + kind,
                      "%s with tag %s %s in %s" % (mpi.mpi_name(c), tag, why, f.full))
            # guards
            for g, labs in ctl.controllers(n):
                if any(id(L) == id(x) for L in n.loops for x in [g.e.get("s")]):
                    continue
                if any(g.i in loop_conds_cached(fl, L) for L in n.loops):
                    continue
                okg = length_guard(fl, g, labs, c["c"][1], n)
                res.check(okg, "skipped-only-when-empty", inl.loc(g.e), "%s tag %s under '%s'" % (mpi.mpi_name(c), tag, expr_str(g.e)),
                          key + "|" + kind + "|" + expr_str(g.e)[:50],
                          "%s with tag %s is skipped by '%s', which is not an empty-message test, so the peer can wait forever" %
                          (mpi.mpi_name(c), tag, expr_str(g.e)))
        # deadlock order
        for n, c, kind, dt, peer in S:
            nm = mpi.mpi_name(c)
            later = [r for r in R if cfg.between(n, r[0])]
            if nm not in mpi.ASYNC_SENDS:
                blocked = [r for r in R if mpi.mpi_name(r[1]) == "MPI_Recv" and cfg.between(n, r[0])]
                res.check(not blocked, "send-does-not-block", inl.loc(c), "%s tag %s" % (nm, tag), key,
                          "%s blocks until the peer receives, but the peer sends first too: both ranks can wait in the send" % nm)
            else:
                res.ok("send-does-not-block", inl.loc(c), "%s tag %s" % (nm, tag))
        for n, c, kind, dt, peer in R:
            if mpi.mpi_name(c) != "MPI_Recv":
                continue
            pre = [s for s in S if cfg.between(s[0], n)]
            posts = [s for s in S if not (cfg.between(n, s[0]) and not cfg.between(s[0], n)) and not recv_first(fl, n, s[0])]
            res.check(bool(pre) and len(posts) == len(S), "send-posted-before-receive", inl.loc(c), "MPI_Recv tag %s" % tag, key,
                      "the blocking receive of tag %s is entered before this rank has posted its own send of tag %s: all ranks wait" % (tag, tag))


def loop_conds_cached(fl, L):
    from ..effects import loop_conds
    k = ("lc", id(L))
    if k not in fl._memo:
        fl._memo[k] = loop_conds(fl, L)
    return fl._memo[k]


def recv_first(fl, r, s):
    """r and s share a loop and, within one iteration, r precedes s"""
    common = [L for L in r.loops if any(x is L for x in s.loops)]
    if not common:
        return False
    h = loop_info(fl, common[-1]).head
    seen, st = set(), [x for x, _ in r.succ]
    while st:
        n = st.pop()
        if n.i in seen or (h is not None and n is h):
            continue
        seen.add(n.i)
        if n is s:
            return True
        st.extend(x for x, _ in n.succ)
    return False


def peer_dependent(fl, e, n):
    calls, places, _ = mpi.back_slice(fl, e, n)
    return any(mpi.mpi_name(c) == "MPI_Comm_rank" for c, _ in calls) or any(p[-1:] == ("[]",) for p in places)


def covers(fl, li, fields, n):
    """is the loop bounded by the (size of the) neighbour list"""
    for p in li.places:
        if p and p[-1] in fields:
            return True
    def terms(t):
        if isinstance(t, tuple):
            yield t
            for y in t[1:]:
                yield from terms(y)
    for src in (li.container, li.bound):
        if src is None:
            continue
        for y in terms(src):
            if y and y[0] == "m" and y[2] in fields:
                return True
    return False
