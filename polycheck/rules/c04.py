"""The element type and count given with every message describe the memory given
with it: type equals the type of the elements and the memory holds at least
count elements.

Rule: for every MPI communication call of every inlined function, compare the
MPI datatype with the C++ element type of the buffer expression, and the count
with the size the buffer was last given (polynomial comparison of value terms)."""
from ..ir import const, expr_str, short, strip_casts, walk
from ..flow import ELEM, Flow, bare, is_arr, is_cont
from ..effects import peq, poly, size_events, size_of_term, term
from .. import mpi
from .c02 import unit_list, calls_at
from .c03 import dtype

TYPES = {"char": {"char"}, "signed_char": {"signed char"}, "unsigned": {"unsigned int"}, "int": {"int"}, "double": {"double"}, "float": {"float"},
         "long": {"long"}, "unsigned_long": {"unsigned long"}, "long_long_int": {"long long"}, "unsigned_long_long": {"unsigned long long"},
         "unsigned_char": {"unsigned char"}, "byte": None, "short": {"short"}, "unsigned_short": {"unsigned short"}, "cxx_bool": {"bool"}}
# call -> list of (buffer argument, count argument, type argument)
BUFS = {"MPI_Bcast": [(0, 1, 2)], "MPI_Allreduce": [(0, 2, 3), (1, 2, 3)], "MPI_Reduce": [(0, 2, 3), (1, 2, 3)], "MPI_Send": [(0, 1, 2)],
        "MPI_Isend": [(0, 1, 2)], "MPI_Ssend": [(0, 1, 2)], "MPI_Issend": [(0, 1, 2)], "MPI_Recv": [(0, 1, 2)], "MPI_Irecv": [(0, 1, 2)],
        "MPI_Gather": [(0, 1, 2)], "MPI_Allgather": [(0, 1, 2)], "MPI_Scan": [(0, 2, 3), (1, 2, 3)]}


def pointee(e):
    x = e
    while x["k"] == "cast" and "void" in (x.get("t") or ""):
        x = x["c"][0]
    t = (x.get("t") or "").replace("const ", "").strip()
    if t.endswith("*"):
        return t[:-1].strip(), x
    if t.endswith("]"):
        return t[:t.index("[")].strip(), x
    return t, x


def buffer_base(x, n, fl):
    """(kind, data): 'cont' (container expr) | 'one' | 'arr' extent | None"""
    x = strip_casts(x)
    k = x["k"]
    if k == "un" and x["o"] == "&":
        y = strip_casts(x["c"][0])
        if y["k"] == "mcall" and y.get("mn") in ("front", "back"):
            return ("cont" if y["mn"] == "front" else "one"), y["c"][0]
        if y["k"] == "opcall" and y["o"] == "[]":
            i = const(y["c"][1])
            return ("cont", y["c"][0]) if i == 0 else ("elem", y["c"][0])
        if y["k"] == "opcall" and y["o"] == "*" or y["k"] == "un" and y["o"] == "*":
            z = strip_casts(y["c"][0])
            if z["k"] == "mcall" and z.get("mn") in ("begin", "cbegin"):
                return "cont", z["c"][0]
            return "elem", y
        if y["k"] == "idx":
            return "elem", y
        return "one", y
    if k == "mcall" and x.get("mn") in ("data", "c_str"):
        return "cont", x["c"][0]
    return None, None


def run(prog, res, tier):
    for f, inl in unit_list(prog, set(BUFS)):
        fl = Flow(inl)
        for n in fl.cfg.livenodes():
            for c in calls_at(fl, n, set(BUFS)):
                for b, ct, ty in BUFS[mpi.mpi_name(c)]:
                    one(res, f, fl, n, c, c["c"][b], c["c"][ct], c["c"][ty])
    res.floor("buffers", 20)


def one(res, f, fl, n, c, b, ct, ty):
    nm = mpi.mpi_name(c)
    res.count("buffers")
    where = fl.inl.loc(c)
    dt = dtype(fl, ty, n)
    et, x = pointee(b)
    what = "%s(%s, count %s, %s) in %s" % (nm, expr_str(b), expr_str(ct), dt, f.full)
    key = "%s|%s|%s" % (f.name, nm, expr_str(b))
    if dt in TYPES and TYPES[dt] is not None and et and et != "void":
        res.check(et in TYPES[dt], "type-matches-buffer", where, what, key, "%s describes elements of type '%s' as MPI %s" % (nm, et, dt))
    elif dt is None:
        res.notes.append("datatype not resolved: " + what)
    kind, base = buffer_base(x, n, fl)
    cv = const(ct)
    if cv is None:
        t = term(fl, ct, n)
        if t[0] == "k":
            cv = t[1]
    if kind in ("one", "elem"):
        if kind == "one":
            ext = 1
            tt = base.get("t") or ""
            if is_arr(tt):
                try:
                    ext = int(tt[tt.index("[") + 1:tt.index("]")])
                except ValueError:
                    ext = None
            res.check(cv is not None and (ext is None or cv <= ext), "count-fits-buffer", where, what, key,
                      "%s moves %s element(s) through the single object '%s'" % (nm, expr_str(ct), expr_str(base)))
        return
    if kind == "cont" and is_cont(base.get("t")):
        pl = fl.lv(base, n)
        ctm = term(fl, ct, n)
        base_t = term(fl, base, n)
        X = size_of_term(ctm)
        if X is not None and X == base_t:
            res.ok("count-fits-buffer", where, what)
            return
        ev = size_events(fl, n, pl)
        if not ev or None in ev:
            # size(count) taken from the same container by an earlier read
            res.notes.append("buffer size not derivable: " + what)
            res.count("undecided_counts")
            return
        def fits(t):
            if peq(t, ctm):
                return True
            a, b2 = poly(t), poly(ctm)
            diff = {m: a.get(m, 0) - b2.get(m, 0) for m in set(a) | set(b2)}
            diff = {m: v for m, v in diff.items() if v}
            # size - count is a sum of non-negative unsigned quantities
            return all(v > 0 for v in diff.values())
        badt = [t for t in ev if not fits(t)]
        res.check(not badt, "count-fits-buffer", where, what, key,
                  "%s uses count '%s' but the buffer '%s' was not sized with it" % (nm, expr_str(ct), expr_str(base)))
