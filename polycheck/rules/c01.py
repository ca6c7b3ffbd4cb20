"""Collective communication is entered by every rank in the same order with the
same root, count, type and communicator: a value that can differ between ranks
(rank number, local generators, local mesh, received data) never decides whether
or with what arguments a collective is executed, unless both outcomes execute
the same sequence of collectives.

Rule: forward uniformity taint (with control dependence) over the inlined CFG
of every root function that can reach a collective; the language of collective
sequences on both sides of every rank-dependent branch must be equal; the
root/count/type/op/communicator arguments must be rank-independent."""
from ..ir import AnalysisError, expr_str, short, walk
from ..flow import Flow, is_cont, is_ptrlike, is_ref, is_scalar
from .. import mpi

ASSUMES = [
    "every rank calls the same public function with the same scalar/string control arguments, the same boundary and the same tessellator options",
    "the wrapped serial tessellator performs no communication",
    "code that aborts the program is not followed by further collectives",
]


def policy(fl, d):
    """is the value of this parameter / member allowed to differ between ranks"""
    if isinstance(d, tuple):
        return False            # tessellator / writer configuration members
    t = fl.tname(d)
    b = t.replace("const ", "").rstrip("& ")
    if is_scalar(b) or b in ("MPI_Op", "MPI_Comm") or b.startswith(("ompi_", "struct ompi_")):
        return False
    if "basic_string<" in b and not b.startswith(("std::vector", "std::map")):
        return False
    if "PLC<" in b and b.startswith(("polytope::PLC", "polytope::ReducedPLC")):
        return False
    return True


def sig(e):
    nm = mpi.mpi_name(e)
    return nm


def coll_at(fl, n):
    return [x for x in fl.subexprs(n) if mpi.mpi_name(x) in mpi.COLL and x["k"] == "call"]


def lang_equal(cfg, starts_a, starts_b, stop, can, label):
    """equality of the sets of collective sequences from two frontier sets up to `stop`"""
    def close(s):
        seen, st = set(), list(s)
        while st:
            n = st.pop()
            if n.i in seen or n.i not in can:
                continue
            seen.add(n.i)
            if n.i == stop:
                continue
            if label.get(n.i):
                continue
            st.extend(x for x, _ in n.succ)
        return frozenset(seen)

    def step(s, a):
        r = []
        for i in s:
            if i != stop and label.get(i) == a:
                r.extend(x for x, _ in cfg.nodes[i].succ)
        return close(r)
    A, B = close(starts_a), close(starts_b)
    seen, work = set(), [(A, B)]
    while work:
        a, b = work.pop()
        if (a, b) in seen:
            continue
        seen.add((a, b))
        if (stop in a) != (stop in b):
            return False
        syms = {label[i] for i in a | b if label.get(i) and i != stop}
        for s in syms:
            x, y = step(a, s), step(b, s)
            if bool(x) != bool(y):
                return False
            if x:
                work.append((x, y))
    return True


def run(prog, res, tier):
    hit = mpi.functions_reaching(prog, set(mpi.COLL))
    rts = mpi.roots(prog, hit)
    analysed = set()
    for key in rts:
        f = prog.funcs[key]
        if f.body is None:
            continue
        inl = mpi.inline_for(prog, key, hit)
        analysed |= inl.inlined | {key}
        analyse(prog, res, f, inl)
    # members only reachable through virtual dispatch are analysed as roots too
    for key in sorted(hit - analysed):
        f = prog.funcs[key]
        if f.body is None:
            continue
        if key in analysed:
            continue
        inl = mpi.inline_for(prog, key, hit)
        analysed |= inl.inlined | {key}
        analyse(prog, res, f, inl)
    res.cover["functions_with_collectives"] = len(hit)
    res.floor("collective_calls", 20)
    res.floor("rank_dependent_branches", 20)


def analyse(prog, res, f, inl):
    fl = Flow(inl)
    cfg = fl.cfg
    U = mpi.Uniform(prog, fl, policy)
    label = {}
    for n in cfg.livenodes():
        cs = coll_at(fl, n)
        if cs:
            label[n.i] = "+".join(sig(c) for c in cs)
    res.count("root_functions")
    for n in cfg.livenodes():
        for c in coll_at(fl, n):
            res.count("collective_calls")
            nm = mpi.mpi_name(c)
            if n.i not in U.ins:
                continue
            st = U.ins[n.i]
            badargs = [i for i in mpi.COLL[nm][0] if i < len(c["c"]) and U.div(c["c"][i], n, st)]
            what = "%s(%s) in %s" % (nm, ", ".join(expr_str(x) for x in c["c"]), f.full)
            where = inl.loc(c)
            if badargs:
                res.bad("collective-arguments-uniform", where, what, "%s|%s|%s" % (f.name, nm, ",".join(map(str, badargs))),
                        "argument(s) %s of %s may differ between ranks (in %s)" %
                        (", ".join("#%d '%s'" % (i, expr_str(c["c"][i])) for i in badargs), nm, f.full))
            else:
                res.ok("collective-arguments-uniform", where, what)
    for i in sorted(U.divconds):
        n = cfg.nodes[i]
        res.count("rank_dependent_branches")
        reg = U.regions[i]
        labs = {label[j] for j in reg if j in label}
        where = inl.loc(n.e)
        if not labs:
            continue
        stop = U.ipd[i]
        succ = {}
        for s, lab in n.succ:
            if s.i in U.can:
                succ.setdefault(lab, []).append(s)
        fr = list(succ.values())
        okk = all(lang_equal(cfg, fr[0], x, stop, U.can, label) for x in fr[1:])
        cond = "loop over " + expr_str(n.e["c"][0]) if n.e["k"] == "rangecond" else expr_str(n.e)
        what = "branch on '%s' covering %s in %s" % (cond, ", ".join(sorted(labs)), f.full)
        if okk:
            res.ok("collective-sequence-balanced", where, what)
        else:
            coll = sorted({inl.loc(c) for j in reg if j in label for c in coll_at(fl, cfg.nodes[j])})
            res.bad("collective-sequence-balanced", where, what, "%s|%s" % (f.name, cond),
                    "rank-dependent condition '%s' decides whether %s at %s is executed, so ranks can disagree and hang (in %s)" %
                    (cond, ", ".join(sorted(labs)), ", ".join(coll), f.full))
