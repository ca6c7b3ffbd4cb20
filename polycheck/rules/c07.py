"""Every index is used with the numbering it belongs to: node numbers subscript node
lists, face numbers face lists, cell numbers cell lists, neighbour slots the
per-neighbour lists, ranks name MPI peers, and while a mesh is being renumbered
old and new numbers are told apart.

Rule (kind inference by unification over every inlined function that touches the
mesh data structures): the fields of Tessellation, QuantizedTessellation2d and the
C tessellation struct carry declared kinds; every subscript, store, comparison of
iteration space, size and message peer is an equation between kinds; two different
declared kinds meeting in one value is a violation.  Values stored per element from
a selective counter are a fresh "new number" kind; accesses before a list is
renumbered carry the old kind, after it the new one."""
from ..kinds import Infer, seeds_for
from ..ir import short
from .. import mpi

ASSUMES = ["a local variable or local list holds one kind of index during its whole lifetime (true for all code analysed; a reuse for two purposes would be reported)"]


def touching(prog):
    direct = set()
    for f in prog.funcs.values():
        if f.body is None:
            continue
        for n in f.nodes():
            if n["k"] == "mem":
                sd = seeds_for(n.get("cls") or "")
                if sd and n["n"] in sd:
                    direct.add(f.key)
                    break
    return direct


def run(prog, res, tier):
    direct = touching(prog)
    hit = mpi.closure(prog, direct)
    seen = set()
    for key in sorted(hit):
        f = prog.funcs[key]
        if f.body is None:
            continue
        inl = mpi.inline_for(prog, key, hit)
        I = Infer(prog, inl).run()
        res.count("functions")
        for loc, what, kind in I.sites:
            if (loc, what, kind) not in seen:
                seen.add((loc, what, kind))
                res.ok("one-kind-per-value", loc, "%s: %s" % (what, kind))
                res.count("agreeing uses")
        for loc, what, ka, pa, kb, pb, ex in I.conflicts:
            k = (loc, what, ka, kb)
            if k in seen:
                continue
            seen.add(k)
            fn = short(f.name)
            res.bad("one-kind-per-value", loc, what, "%s|%s|%s" % (fn, ex, "/".join(sorted((str(ka), str(kb))))),
                    "%s, analysed from %s: '%s' is %s, but the value used is %s [%s] [%s]" % (what, f.full, ex, ka, kb, pa, pb))
    res.floor("functions", 20)
    res.floor("agreeing uses", 100)
