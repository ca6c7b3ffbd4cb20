"""Assertions only observe: everything compiled in or executed only when assertions are
enabled (the condition of every POLY_ASSERT, contract scopes, NDEBUG-only code) leaves
alone whatever the rest of the program reads, performs no I/O and no message exchange the
rest depends on, and does not return, so that a release build computes the same thing.

Rule: both preprocessor variants of every function are analysed; the CFG nodes present
only with assertions on (or only with them off) are those whose expression does not occur
in the other variant.  Every store performed by such a node, by the functions it calls
(transitive MOD summary over the in-repo call graph) or through what it passes by reference
must target an object no node common to both variants reads; such a node may neither
leave the function nor write files."""
from ..effects import writes
from ..flow import Flow
from ..ir import CFG, Inliner, Program, const, expr_str, short, strip_casts, walk

ASSUMES = ["functions of the standard library and of Boost write only what they are given by reference",
           "debug-only consistency checks may communicate collectively (C01 decides that all ranks take part)"]
ASSERTS = True
IO = ("fopen", "fwrite", "fprintf", "fputs", "mkdir", "remove", "rename", "unlink", "rmdir", "chmod", "system", "srand", "setenv",
      "MPI_Send", "MPI_Isend", "MPI_Recv", "MPI_Irecv", "MPI_Ssend", "MPI_Sendrecv", "srandom", "srand48", "exit", "_exit", "free", "fclose")


def nkey(n):
    e = n.e
    if n.kind == "cond" and e["k"] == "rangecond":
        return ("rangecond", e.get("l"))
    if isinstance(e, dict) and e["k"] == "var":
        return ("var", e.get("l"), e.get("n"), expr_str(e["init"]) if e.get("init") else "")
    if isinstance(e, dict):
        return (n.kind if n.kind in ("ret", "cond") else "expr", e.get("l"), e["k"], expr_str(e))
    return (n.kind,)


class Variant:
    def __init__(self, prog, f):
        self.f = f
        self.inl = Inliner(prog, lambda t, n: False, maxdepth=1).run(f)
        self.fl = Flow(self.inl, CFG(self.inl.body))
        self.nodes = [n for n in self.fl.cfg.livenodes() if n.kind in ("expr", "var", "cond", "ret", "range")]
        self.keys = {nkey(n) for n in self.nodes}


    def deps(self, among):
        """expression -> the conditions (with outcome) it is directly control dependent on"""
        pdom = self.fl.cfg.dominators(post=True)
        res = {nkey(n): set() for n in self.nodes if nkey(n) in among}
        for c in self.nodes:
            if c.kind != "cond" or nkey(c) not in among:
                continue
            own = pdom.get(c.i, 0)
            for t, lab in c.succ:
                p = pdom.get(t.i, 0) | 1 << t.i
                for n in self.nodes:
                    if p >> n.i & 1 and (not own >> n.i & 1 or n.i == c.i):
                        k = nkey(n)
                        if k in res:
                            res[k].add((nkey(c), lab))
        return res


def text(f):
    """cheap fingerprint of a body, to skip functions that are the same in both variants"""
    return f.d.get("fp") or repr(f.body)


def refs(fl, n):
    for e in fl.subexprs(n):
        if e["k"] == "ref" and e.get("dk") in ("local", "param"):
            yield e["d"]
        elif e["k"] == "lambda":
            for x in walk(e.get("body")):
                if x["k"] == "ref" and x.get("dk") in ("local", "param"):
                    yield x["d"]


def stream(t):
    t = t or ""
    return "stream" in t


class Mod:
    """what a call may change besides what it is given: members of the receiver, globals, statics"""

    def __init__(self, prog):
        self.prog, self.memo = prog, {}

    def own(self, f):
        """(writes through this, description of a global store, I/O) of one function"""
        if f.key in self.memo:
            return self.memo[f.key]
        self.memo[f.key] = (None, None, None)
        th = gl = io = None
        if f.body is not None:
            v = Variant(self.prog, f)
            for n in v.fl.cfg.livenodes():
                for w in writes(v.fl, n):
                    for p in w.places:
                        if p[0][0] == "G":
                            if not stream(str(p[0])) and "cout" not in str(p[0]) and "cerr" not in str(p[0]):
                                gl = gl or (v.inl.loc(w.e), expr_str(w.e)[:60])
                        elif p[0] == ("T",):
                            th = th or (v.inl.loc(w.e), expr_str(w.e)[:60])
                for e in v.fl.subexprs(n):
                    if e["k"] in ("call", "mcall", "opcall", "ctor"):
                        if e["k"] == "call" and (short(e.get("n", "")) in IO or e.get("n", "").startswith(("DBPut", "PMPIO"))):
                            io = io or (v.inl.loc(e), expr_str(e)[:60])
                        for g in self.prog.callees(e):
                            t2, g2, i2 = self.own(g)
                            gl, io = gl or g2, io or i2
                            if t2 and e["k"] == "mcall" and e["c"] and e["c"][0]["k"] == "this":
                                th = th or t2
        self.memo[f.key] = (th, gl, io)
        return self.memo[f.key]


def harmless(fl, n, w):
    """a store that changes nothing unless the assertion fails"""
    x = strip_casts(n.e)
    neg = False
    while x["k"] == "un" and x["o"] == "!":
        neg = not neg
        x = strip_casts(x["c"][0])
    # assertion unique(a, b) == b: nothing moves when it holds
    if w.kind == "algo:unique":
        y = [z for z in walk(n.e) if z["k"] in ("bin", "opcall") and z.get("o") == "==" and len(z["c"]) == 2]
        return any(any(q is w.e for q in walk(a)) and expr_str(b) == expr_str(w.e["c"][1]) for z in y for a, b in (z["c"], z["c"][::-1]))
    # assertion on map[key] that fails for a freshly inserted (empty, zero) element
    if w.kind == "mut:operator[]":
        for z in walk(n.e):
            if z["k"] in ("bin", "opcall") and len(z.get("c") or []) == 2:
                for a, b, o in ((z["c"][0], z["c"][1], z.get("o")), (z["c"][1], z["c"][0], {"<": ">", "<=": ">="}.get(z.get("o"), z.get("o")))):
                    v = const(strip_casts(b))
                    a = strip_casts(a)
                    if a["k"] == "mcall" and a.get("mn") == "size":
                        a = strip_casts(a["c"][0])
                    if a is w.e and isinstance(v, (int, float)):
                        return {"==": v != 0, ">": v >= 0, ">=": v > 0, "!=": v == 0}.get(o, False)
            if z["k"] == "un" and z["o"] == "!":
                a = strip_casts(z["c"][0])
                if a["k"] == "mcall" and a.get("mn") == "empty" and strip_casts(a["c"][0]) is w.e:
                    return True
    return False


def escapes(body, other):
    """break/continue of a common loop, keyed by line"""
    res = []

    def go(s, loop, cond):
        if not isinstance(s, dict):
            return
        k = s["k"]
        if k in ("for", "forrange", "while", "do", "switch"):
            loop = s
            cond = None
        elif k == "if":
            cond = s
        elif k in ("break", "continue"):
            res.append((k, s, loop, cond))
        if k == "lambda":
            return
        for x in s.get("c") or []:
            go(x, loop, cond)
    go(body, None, None)
    return res


def compare(prog, other, f, g, res, mod, label, seen):
    A, B = Variant(prog, f), Variant(other, g)
    fl = A.fl
    extra = [n for n in A.nodes if nkey(n) not in B.keys]
    if not extra:
        return 0
    ids = {n.i for n in extra}
    common = [n for n in A.nodes if n.i not in ids]
    read = {}
    for n in common:
        for d in refs(fl, n):
            read.setdefault(d, n)
    declared = {n.e["d"] for n in extra if n.kind == "var" and n.e["k"] == "var"}
    params = {p["d"] for p in A.inl.params}

    def bad(e, key, why):
        loc = A.inl.loc(e)
        k = (loc, key)
        if k in seen:
            return
        seen.add(k)
        res.bad("observe-only", loc, key, "%s|%s|%s" % (f.short, label, key), "%s: %s, %s [%s]" % (f.full, why, label, expr_str(e)[:120] if e["k"] not in ("var",) else e.get("n")))
    for n in extra:
        loc = A.inl.loc(n.e)
        if (loc, "ok") not in seen:
            seen.add((loc, "ok"))
            res.count("assertion-only expressions")
        clean = True
        if n.kind == "ret":
            bad(n.e, "returns", "the function returns")
            clean = False
        if isinstance(n.e, dict) and n.e["k"] == "throw":
            bad(n.e, "throws", "an exception is thrown")
            clean = False
        for w in writes(fl, n):
            for p in w.places:
                r = p[0]
                what = None
                if w.target is not None and stream(w.target.get("t")):
                    continue
                if r[0] == "L":
                    if r[1] in declared or r[1] not in read:
                        continue
                    what = "the variable '%s'" % fl.vname(r[1])
                elif r[0] == "A":
                    if r[1] not in params and r[1] in declared:
                        continue
                    if r[1] not in params and r[1] not in read:
                        continue
                    what = "what '%s' refers to" % fl.vname(r[1])
                elif r[0] == "T":
                    what = "a member of the object (%s)" % ".".join(str(x) for x in p[1:3])
                elif r[0] == "G":
                    if "cout" in str(r) or "cerr" in str(r):
                        continue
                    what = "the global %s" % r[1]
                else:
                    continue
                if not isinstance(w.e, dict):
                    continue
                if n.kind == "cond" and harmless(fl, n, w):
                    continue
                if n.kind == "var" and w.e is n.e:
                    continue
                clean = False
                bad(w.e, str(what), "%s is changed" % what)
        for e in fl.subexprs(n):
            if e["k"] in ("call", "mcall", "opcall", "ctor", "new"):
                if e["k"] == "call" and (short(e.get("n", "")) in IO or e.get("n", "").startswith(("DBPut", "PMPIO"))):
                    bad(e, short(e["n"]), "%s is called" % short(e["n"]))
                    clean = False
                for c in prog.callees(e):
                    if short(c.name) == "internal_abort":
                        continue
                    th, gl, io = mod.own(c)
                    if gl:
                        bad(e, "global|" + c.short, "the call changes a global or static variable (%s: %s)" % gl)
                        clean = False
                    if io:
                        bad(e, "io|" + c.short, "the call writes a file or exchanges messages (%s: %s)" % io)
                        clean = False
                    if th and e.get("cm"):
                        bad(e, "mutable|" + c.short, "the call changes its object although it is const (%s: %s)" % th)
                        clean = False
        if clean and (loc, "done") not in seen:
            seen.add((loc, "done"))
            res.ok("observe-only", loc, (expr_str(n.e) if n.e["k"] != "var" else n.e.get("n", "?"))[:80])
    # common code executed only under a condition the other build does not have
    pdom = fl.cfg.dominators(post=True)
    for n in extra:
        if n.kind != "cond":
            continue
        own = pdom.get(n.i, 0)
        for c in common:
            if c.i != n.i and not own >> c.i & 1 and any(t.i == c.i or pdom.get(t.i, 0) >> c.i & 1 for t, _ in n.succ):
                bad(n.e, "guards", "it decides whether '%s', which the other build executes regardless, is executed" % (expr_str(c.e) if c.kind != "var" else c.e.get("n"))[:60])
                break
    # the same conditions of the common code decide over the same common code
    if label.endswith("enabled"):
        da, db = A.deps(B.keys), B.deps(A.keys)
        for k in sorted(set(da) & set(db), key=repr):
            if da[k] != db[k] and k[0] != "ret":
                n = next(x for x in common if nkey(x) == k)
                c = sorted(da[k] ^ db[k], key=repr)[0]
                bad(n.e, "control|" + k[-1] if isinstance(k[-1], str) else "control", "whether it is executed depends on '%s' in one build only" % (c[0][-1],))
    # leaving a common loop
    heads = {k[1] for k in B.keys}
    for k, s, loop, cond in escapes(A.inl.body, None):
        if loop is None or cond is None:
            continue
        conds = [n for n in extra if n.kind == "cond" and any(n.e is x for x in walk(cond["c"][0]))]
        if not conds:
            continue
        lids = {id(x) for x in walk(loop)}
        lc = [n for n in common if id(n.e) in lids]
        if lc:
            bad(conds[0].e, k, "a loop shared with the other build is left by '%s'" % k)
    return len(extra)


def run(prog, res, tier):
    rel = Program()
    moda, modr = Mod(prog), Mod(rel)
    seen = set()
    for key in sorted(prog.funcs):
        f = prog.funcs[key]
        g = rel.funcs.get(key)
        if f.body is None:
            continue
        if g is None or g.body is None:
            # a function that exists only with assertions on is reached only from assertion-only code
            res.count("functions compiled only with assertions")
            continue
        if text(f) == text(g):
            res.count("functions without assertions")
            continue
        res.count("functions with assertions")
        compare(prog, rel, f, g, res, moda, "only when assertions are enabled", seen)
        compare(rel, prog, g, f, res, modr, "only when assertions are disabled", seen)
    res.floor("assertion-only expressions", 1)
