"""References stored in one's complement (faces of a cell, cells of a face, edges of
a quantized cell) are decoded before they are used as an index.

Rule: forward sign analysis of every inlined function that touches such a list.
A value read from the list is an encoded reference until a sign test on the path
(an if, a conditional expression, a test kept in a bool, a helper like
internal::positiveID) proves it non-negative, or proves it negative and it is
complemented.  An encoded, wrongly complemented or freshly encoded value may not be
a subscript, may not enter a list of unsigned numbers, may not be converted to an
unsigned parameter and may not be compared with a plain number."""
from ..effects import writes
from ..flow import ELEM, bare, is_iter
from ..ir import const, expr_str, short, strip_casts, walk
from ..signs import ENC, NAMES, UNS, Signs, isint
from .. import mpi

ASSUMES = ["lists other than the documented ones hold encoded references only if an encoded value is stored into them in the analysed function or its callers/callees"]
WORD = {"raw": "an undecoded reference (may be a complement)", "rawneg": "a complemented reference (negative on this path)",
        "neg": "a complemented index", "bad": "complemented/converted without knowing its sign"}


def has_compl(f):
    return any(x["k"] == "un" and x["o"] == "~" and isint(x.get("t")) for x in f.nodes())


def touching(prog):
    hit = set()
    for f in prog.funcs.values():
        if f.body is None:
            continue
        for x in f.nodes():
            if x["k"] == "mem" and x["n"] in NAMES and ("Tessellation" in (x.get("cls") or "") or "polytope_tessellation" in (x.get("cls") or "")):
                hit.add(f.key)
                break
        else:
            if has_compl(f):
                hit.add(f.key)
    return hit


def analyses(prog, res):
    """Signs of every function that is not merely a callee of an analysed one"""
    cache = getattr(prog, "_signs", None)
    if cache is None:
        direct = touching(prog)
        hit = mpi.closure(prog, direct)
        cache = []
        for key in sorted(hit):
            f = prog.funcs[key]
            if f.body is None:
                continue
            inl = mpi.inline_for(prog, key, direct)
            if key not in direct and not (inl.inlined & direct):
                continue
            cache.append((f, Signs(prog, inl)))
        prog._signs = cache
    return cache


def states(S, e, n):
    """(expression, node, state) for e and everything below, ternary arms refined"""
    st = S.IN.get(n.i)
    if st is None:
        return

    def go(x, s):
        if x is None or x["k"] == "lambda":
            return
        yield x, s
        if x["k"] == "inl":
            return
        if x["k"] == "cond":
            c = x["c"]
            yield from go(c[0], s)
            for arm, o in ((c[1], True), (c[2], False)):
                s2 = S.refine(c[0], o, n, s.copy())
                if s2 is not None:
                    yield from go(arm, s2)
            return
        if x["k"] == "bin" and x["o"] in ("&&", "and", "||", "or"):
            a, b = x["c"]
            yield from go(a, s)
            s2 = S.refine(a, x["o"] in ("&&", "and"), n, s.copy())
            if s2 is not None:
                yield from go(b, s2)
            return
        for y in x.get("c") or []:
            yield from go(y, s)
    yield from go(e, st)


def run(prog, res, tier):
    seen = set()
    for f, S in analyses(prog, res):
        res.count("functions")
        fl = S.fl

        def verdict(x, toks, what, kind):
            rel = [t for t in toks if t[1] is not None or t[0] in ENC]
            if not rel:
                return
            bad = sorted({t[0] for t in toks if t[0] in ENC})
            loc = S.inl.loc(x)
            k = (loc, expr_str(x), kind, tuple(bad))
            if k in seen:
                return
            seen.add(k)
            res.check(not bad, "decode-before-use", loc, what, "%s|%s|%s" % (short(f.name), kind, expr_str(x)),
                      "%s: '%s' is used as %s while it is %s" % (f.full, expr_str(x), kind, " / ".join(WORD[b] for b in bad)))
            res.count(kind)
        for n in S.cfg.livenodes():
            for e0 in fl.node_exprs(n):
                for x, st in states(S, e0, n):
                    k, c = x["k"], x.get("c") or []
                    if (k == "idx" or (k == "opcall" and x["o"] == "[]") or (k == "mcall" and x.get("mn") == "at")) and len(c) == 2 and isint(strip_casts(c[1]).get("t")):
                        v = S.conv(S.eval(c[1], n, st), "int")
                        verdict(c[1], v, "subscript %s of %s" % (expr_str(c[1]), expr_str(c[0])), "a subscript")
                    elif k in ("bin", "opcall") and x.get("o") == "+" and len(c) == 2 and is_iter(c[0].get("t")) and isint(strip_casts(c[1]).get("t")):
                        verdict(c[1], S.eval(c[1], n, st), "offset %s" % expr_str(c[1]), "an offset")
                    elif k == "bin" and x["o"] in ("==", "!="):
                        a, b = S.eval(c[0], n, st), S.eval(c[1], n, st)
                        for u, v, ue, ve in ((a, b, c[0], c[1]), (b, a, c[1], c[0])):
                            if const(strip_casts(ve)) is not None or not isint(strip_casts(ve).get("t")):
                                continue
                            if not any(t[0] in ENC for t in v) and any(t[0] in ("raw", "bad") for t in u):
                                verdict(ue, u, "comparison %s" % expr_str(x), "a plain number compared")
                    elif k == "inl":
                        for pv in x["c"][:-1]:
                            if isinstance(pv.get("init"), dict) and isint(pv.get("t")) and UNS.search(pv.get("t") or "") and isint(strip_casts(pv["init"]).get("t")):
                                verdict(pv["init"], S.eval(pv["init"], n, st), "unsigned argument %s" % expr_str(pv["init"]), "an unsigned argument")
                    elif k in ("call", "mcall") and not short(x.get("n", "")).startswith("operator") and x.get("in"):
                        args = c[1:] if k == "mcall" else c
                        for a in args:
                            if a["k"] == "cast" and UNS.search(a.get("t") or "") and isint(a.get("t")) and isint(strip_casts(a).get("t")):
                                verdict(a, S.eval(a, n, st), "unsigned argument %s" % expr_str(a), "an unsigned argument")
            st = S.IN.get(n.i)
            if st is None:
                continue
            for w in S.ws(n):
                if w.rhs is None or not isint(strip_casts(w.rhs).get("t")):
                    continue
                if w.kind == "asgn" and not UNS.search(strip_casts(w.target).get("t") or ""):
                    continue
                if w.kind in ("mut:push_back", "mut:insert", "mut:emplace_back"):
                    t = bare(w.target.get("t") or "")
                    if not UNS.search(t[:60]) or "int>" in t[:30].replace("unsigned int", ""):
                        continue
                elif w.kind != "asgn":
                    continue
                for p in w.places:
                    if w.kind == "asgn" and (len(p) < 2 or p[-1] != ELEM):
                        continue
                    s2 = st
                    verdict(w.rhs, S.eval(w.rhs, n, s2), "store %s" % expr_str(w.e), "an unsigned list entry")
                    break
    res.floor("functions", 10)
    res.floor("a subscript", 10)
