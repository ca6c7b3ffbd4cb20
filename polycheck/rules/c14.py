"""The C structs own their memory: creation, clearing, filling and destruction keep
every pointer member either NULL or the only owner of a live block.

Rule (typestate, one abstract state per pointer member, all paths of every function
that touches the structs, callees inlined): a member is uninitialised, NULL, owned or
freed.  Each function is entered with the invariant (NULL or owned, with members that
are always allocated together related), and must re-establish it: no free of an
uninitialised or already freed member, no owned block overwritten or forgotten, no
freed pointer left behind, every member of a new struct initialised, every member
released before the struct itself is freed.  Counters are zero whenever the array
they count is NULL; *_clear() leaves all members NULL and all counters zero.
A member that is itself such a struct is released together with what it owns, and
every release uses the deallocator of the allocation's family (malloc, new, new[]).  A
pointer stored in a member comes from an allocation made for it; a pointer returned
to the caller does not point into a temporary."""
import itertools
from ..effects import writes
from ..flow import ELEM, Flow, is_ptr, bare, deref_local
from ..ir import CFG, const, expr_str, short, strip_casts, walk, AnalysisError
from .. import mpi

ASSUMES = ["malloc does not return NULL", "callers pass structs made by the *_new functions and different structs for different arguments"]
ALLOC = ("malloc", "calloc", "strdup", "realloc")
U, N, O, F, S = "uninitialised", "NULL", "owned", "freed", "owned, held in a local that is freed"
Z, A = "zero", "any"


def structs(prog):
    """C structs with pointer members defined in the C interface"""
    r = {}
    for n, rec in prog.records.items():
        if "/polytope_c/" in rec.get("file", "") and "<" not in n:
            fs = prog.fields(n)
            if any(is_ptr(f["t"]) for f in fs):
                r[n] = fs
    return r


def rectype(t):
    t = bare(t or "").replace("const ", "").replace("struct ", "").strip()
    return t[:-1].strip() if t.endswith("*") else t


class Machine:
    """the events on the members of one struct object in one inlined function"""

    def __init__(self, prog, inl, fl, root, fields, start):
        self.fl, self.root, self.start = fl, root, start
        self.fields = {f["n"]: f for f in fields}
        self.ev, self.src, self.freed_locals = {}, {}, set()
        for n in fl.cfg.livenodes():
            for e in fl.subexprs(n):
                if e["k"] == "call" and short(e.get("n", "")) == "free" and e.get("c") or e["k"] == "delete":
                    self.freed_locals |= self.names_of(e["c"][0], n)
                if e["k"] == "asgn" and e["o"] == "=":
                    for p in fl.lv(e["c"][0], n):
                        f = self.field(p)
                        if f:
                            for q in fl.pts(e["c"][1], n):
                                if q[0][0] == "N" and len(q) == 1:
                                    self.src.setdefault(q[0], set()).add(f)
        for n in fl.cfg.livenodes():
            es = list(self.events(n))
            if es:
                self.ev[n.i] = es

    def nested(self, S):
        """(member, releasing expression, node, inner members nothing releases) for members that are structs themselves"""
        rel = []
        for n in self.fl.cfg.livenodes():
            for e in self.fl.subexprs(n):
                c = e.get("c") or []
                if c and (e["k"] == "delete" or e["k"] == "call" and short(e.get("n", "")) == "free"):
                    rel.append((n, e, self.fl.pts(c[0], n)))
        for n, e, ps in rel:
            for p in ps:
                f = self.field(p[:-1]) if len(p) == 3 and p[-1] == ELEM else None
                inner = S.get(rectype(self.fields[f]["t"])) if f else None
                if not inner:
                    continue
                lost = []
                for g in inner:
                    if is_ptr(g["t"]) and not any((p + (g["n"], ELEM)) in qs and (m.i == n.i or self.reaches(m, n) or self.reaches(n, m)) for m, _, qs in rel):
                        lost.append(g["n"])
                yield f, e, n, lost

    def families(self):
        """(member or '' for the struct itself, 'made'/'released', allocator family, expression)"""
        fl = self.fl
        made = {}
        for n in fl.cfg.livenodes():
            for e in fl.subexprs(n):
                if e["k"] == "new":
                    made[id(e)] = ("new[]" if e.get("arr") else "new", e)
                elif e["k"] == "call" and short(e.get("n", "")) in ALLOC:
                    made[id(e)] = ("malloc", e)
        if self.root[0] == "N" and self.root[1] in made:
            yield ("", "made") + made[self.root[1]]
        for r, fs in self.src.items():
            if r[1] in made:
                for f in fs:
                    yield (f, "made") + made[r[1]]
        for n in fl.cfg.livenodes():
            for e in fl.subexprs(n):
                c = e.get("c") or []
                if not c or not (e["k"] == "delete" or e["k"] == "call" and short(e.get("n", "")) == "free"):
                    continue
                fam = "malloc" if e["k"] == "call" else "new[]" if e.get("arr") else "new"
                for p in fl.pts(c[0], n):
                    if p == (self.root,):
                        yield "", "released", fam, e
                    elif len(p) == 3 and p[-1] == ELEM and self.field(p[:-1]):
                        yield p[1], "released", fam, e

    def reaches(self, a, b):
        seen, todo = set(), [a]
        while todo:
            x = todo.pop()
            for s, _ in x.succ:
                if s.i == b.i:
                    return True
                if s.i not in seen:
                    seen.add(s.i)
                    todo.append(s)
        return False

    def field(self, p, content=False):
        if p[0] != self.root:
            return None
        if content:
            return p[1] if len(p) >= 3 and p[1] in self.fields and p[2] == ELEM else None
        return p[1] if len(p) == 2 and p[1] in self.fields else None

    def names_of(self, e, n, depth=0):
        """local pointers whose value e is (through parameters of inlined calls)"""
        d = deref_local(strip_casts(e))
        if d is None:
            return set()
        out = {d}
        if depth < 6:
            for x in self.fl.reaching(n, d):
                if x.kind == "init" and x.e is not None and (x.v or {}).get("inlparam"):
                    out |= self.names_of(x.e, x.node, depth + 1)
        return out

    def events(self, n):
        fl = self.fl
        if n.kind == "var" and is_ptr(n.e.get("t")) and n.e.get("d") in self.freed_locals and isinstance(n.e.get("init"), dict):
            ps = fl.lv(strip_casts(n.e["init"]), n)
            for p in ps:
                f = self.field(p)
                if f and strip_casts(n.e["init"])["k"] == "mem":
                    yield ("save", f, n.e, None)

        def go(e):
            if e is None or e["k"] in ("inl", "lambda"):
                return
            for x in e.get("c") or []:
                if isinstance(x, dict):
                    yield from go(x)
            k = e["k"]
            c = e.get("c") or []
            nm = short(e.get("n", "")) if k == "call" else ""
            if (k == "call" and nm == "free" and c) or k == "delete":
                arg = strip_casts(c[0])
                if arg["k"] == "lit":
                    return
                ps = fl.pts(c[0], n)
                for p in ps:
                    f = self.field(p[:-1]) if len(p) == 3 and p[-1] == ELEM else None
                    if f:
                        yield ("free", f, e, len(ps) == 1)
                    elif p == (self.root,):
                        yield ("freeobj", None, e, len(ps) == 1)
                    elif len(p) == 1 and p[0] in self.src:
                        for g in sorted(self.src[p[0]]):
                            yield ("free", g, e, len(ps) == 1)
                return
            if k == "call" and nm == "memset" and len(c) == 3 and (self.root,) in fl.pts(c[0], n):
                if const(c[1]) == 0:
                    for f in self.fields:
                        yield ("set", f, e, (N if is_ptr(self.fields[f]["t"]) else Z,))
                return
            if k == "asgn" or (k == "opcall" and e["o"] in ("=",) and len(c) == 2):
                lp = fl.lv(c[0], n)
                for p in lp:
                    f = self.field(p)
                    if f is None:
                        if p == (self.root,) and e["o"] == "=":
                            r = strip_casts(c[1])
                            zero = r["k"] in ("init", "ctor") and all(const(x) in (0, None) and not x.get("n") for x in r.get("c") or [])
                            for g in self.fields:
                                isp = is_ptr(self.fields[g]["t"])
                                yield ("set", g, e, ((N,) if isp else (Z,)) if zero else ((N, O) if isp else (A,)))
                        continue
                    if is_ptr(self.fields[f]["t"]):
                        yield ("set", f, e, self.value(c[1], n, f, e))
                    else:
                        v = const(c[1])
                        yield ("set", f, e, (Z,) if v == 0 and e["o"] == "=" else (A,))
                return
            if k == "un" and e["o"] in ("++", "--"):
                for p in fl.lv(c[0], n):
                    f = self.field(p)
                    if f and not is_ptr(self.fields[f]["t"]):
                        yield ("set", f, e, (A,))
                return
            if k in ("idx", "un", "mem", "opcall"):
                if k == "un" and e["o"] != "*":
                    return
                if k == "opcall" and e["o"] not in ("*", "[]", "->"):
                    return
                for p in fl.lv(e, n):
                    f = self.field(p, True)
                    if f:
                        yield ("use", f, e, None)
        for e in fl.node_exprs(n):
            yield from go(e)

    def value(self, e, n, f, at):
        """possible states of a member that receives e"""
        fl = self.fl
        x = strip_casts(e)
        if const(x) == 0 or (x["k"] == "lit" and x.get("lk") in ("null", "nullptr")) or x["k"] == "lit":
            return (N,)
        if x["k"] == "cond":
            return tuple(sorted(set(self.value(x["c"][1], n, f, at)) | set(self.value(x["c"][2], n, f, at))))
        if x["k"] == "asgn":
            return self.value(x["c"][1], n, f, at)
        if x["k"] == "call" and short(x.get("n", "")) == "realloc":
            return ("realloc",)
        if x["k"] == "ref" and x.get("dk") in ("local", "param"):
            ds = fl.reaching(n, x["d"])
            out = set()
            for d in ds:
                if d.kind in ("init", "asgn") and d.e is not None:
                    out |= set(self.value(d.e, d.node, f, at))
                else:
                    out.add("alien")
            return tuple(sorted(out)) or ("alien",)
        if x["k"] == "inl":
            out = set()
            for n2, r in fl.rets(x):
                out |= set(self.value(r, n2, f, at))
            return tuple(sorted(out)) or ("alien",)
        if x["k"] == "new" or x["k"] == "call" and short(x.get("n", "")) in ALLOC:
            return (O,)
        ps = fl.pts(x, n)
        if ps and all(p[0][0] == "N" for p in ps):
            return (O,)
        return ("alien",)

    # ------------------------------------------------------------------
    def run(self, names, init):
        """names: tracked members (tuple); init: set of state tuples at the start.
        returns (errors, states at exit, states where the object is released)"""
        fl, cfg = self.fl, self.fl.cfg
        errs = {}

        def err(kind, f, e, extra=""):
            errs.setdefault((kind, f, id(e)), (kind, f, e, extra))
        rel = set()

        def step(n, st, report):
            for ev in self.ev.get(n.i, ()):
                kind, f, e, v = ev
                if kind == "freeobj":
                    for s in st:
                        for g, x in zip(names, s):
                            if report and is_ptr(self.fields[g]["t"]) and x in (O, U):  # S: freed through the local
                                err("leak-at-free" if x == O else "uninit-at-free", g, e)
                    continue
                if f not in names:
                    continue
                i = names.index(f)
                out = set()
                for s in st:
                    x = s[i]
                    if kind == "save":
                        out.add(s[:i] + (S if x == O else x,) + s[i + 1:])
                    elif kind == "free":
                        if x == F and report:
                            err("double-free", f, e)
                        if x == U and report:
                            err("free-uninit", f, e)
                        out.add(s[:i] + (F if x != N else N,) + s[i + 1:])
                        if not v:
                            out.add(s)
                    elif kind == "set":
                        for nv in v:
                            if nv == "realloc":
                                if x == F and report:
                                    err("double-free", f, e)
                                out.add(s[:i] + (O,) + s[i + 1:])
                                continue
                            if nv == "alien":
                                if report:
                                    err("alien", f, e)
                                nv = O
                            if x == O and is_ptr(self.fields[f]["t"]) and report:
                                err("overwrite", f, e)
                            out.add(s[:i] + (nv,) + s[i + 1:])
                    elif kind == "use":
                        if x == F and report:
                            err("use-after-free", f, e)
                        if x == U and report:
                            err("use-uninit", f, e)
                        out.add(s)
                st = frozenset(out)
            return st

        def refine(n, st):
            if n.kind != "cond" or n.e["k"] == "rangecond":
                return lambda lab: st
            e = strip_casts(n.e)
            neg = False
            while e["k"] == "un" and e["o"] in ("!", "not"):
                neg = not neg
                e = strip_casts(e["c"][0])
            sub = e
            if e["k"] == "bin" and e["o"] in ("==", "!="):
                a, b = e["c"]
                za = strip_casts(a)["k"] == "lit" or const(a) == 0
                zb = strip_casts(b)["k"] == "lit" or const(b) == 0
                if not (za or zb):
                    return lambda lab: st
                if (const(b) not in (0, None)) or (const(a) not in (0, None)):
                    return lambda lab: st
                sub = b if za else a
                if e["o"] == "==":
                    neg = not neg
            elif e["k"] == "bin" and e["o"] in (">", ">=", "<") :
                a, b = e["c"]
                if e["o"] == ">" and const(b) == 0:
                    sub = a
                elif e["o"] == "<" and const(a) == 0:
                    sub = b
                elif e["o"] == ">=" and const(b) == 1:
                    sub = a
                else:
                    return lambda lab: st
            fs = {self.field(p) for p in fl.lv(sub, n)}
            if len(fs) != 1 or None in fs:
                return lambda lab: st
            f = fs.pop()
            if f not in names:
                return lambda lab: st
            i = names.index(f)

            def r(lab):
                nonnull = (lab is True) != neg
                o = frozenset(s for s in st if (s[i] not in (N, Z) if nonnull else s[i] not in (O, F, S)))
                if not o:
                    return None
                if not nonnull and not is_ptr(self.fields[f]["t"]):
                    o = frozenset(s[:i] + (Z,) + s[i + 1:] for s in o)
                return o
            return r

        start = self.start

        def transfer(n, st):
            if start is not None and n.i == start.i:
                st = frozenset(init)
            if st is None or not st:
                return lambda lab: st
            return refine(n, step(n, st, False))
        first = frozenset(init) if start is None else frozenset()
        ins = cfg.forward(first, transfer, lambda a, b: a | b)
        for n in cfg.livenodes():
            st = ins.get(n.i)
            if st is None:
                continue
            if start is not None and n.i == start.i:
                st = frozenset(init)
            if st:
                step(n, st, True)
        # object released?
        released = any(ev[0] == "freeobj" for es in self.ev.values() for ev in es)
        end = frozenset(tuple(O if x == S else x for x in s) for s in ins.get(cfg.exit.i, frozenset()))
        return list(errs.values()), end, released


MSG = {"double-free": "is freed although it may already have been freed", "free-uninit": "is freed although it was never given a value",
       "overwrite": "is overwritten although it may still own a block (the block is lost)", "use-after-free": "is read after it was freed",
       "use-uninit": "is read before it was given a value", "alien": "receives a pointer the struct does not own",
       "leak-at-free": "may still own a block when the struct itself is freed", "uninit-at-free": "has no value when the struct is freed",
       "dangling": "still points to freed memory when the function returns", "uninit": "has no value when the new struct is handed out",
       "count": "can be nonzero although the array it counts is gone", "not-cleared": "is not reset by the clearing function",
       "relation": "no longer agrees with the member it belongs to"}


def relations(ptrs, f):
    """candidate invariants of member f: none, same as g, the opposite of g"""
    yield (f,), {(N,), (O,)}, "NULL or owned"
    for g in ptrs:
        if g != f:
            yield (f, g), {(N, N), (O, O)}, "allocated exactly when %s is" % g
    for g in ptrs:
        if g != f:
            yield (f, g), {(N, O), (O, N)}, "allocated exactly when %s is not" % g


def run(prog, res, tier):
    S = structs(prog)
    touch = set()
    for f in prog.funcs.values():
        if f.body is None:
            continue
        if any(x["k"] == "mem" and (x.get("cls") or "") in S for x in f.nodes()) or any(rectype(p["t"]) in S for p in f.params):
            touch.add(f.key)
    made = {s: 0 for s in S}
    work = {s: [] for s in S}
    for key in sorted(touch):
        f = prog.funcs[key]
        inl = mpi.inline_for(prog, key, touch)
        fl = Flow(inl, CFG(inl.body))
        res.count("functions")
        for p in inl.params:
            t = rectype(p["t"])
            if t in S and is_ptr(p["t"]) or t in S and p["t"].endswith("&"):
                work[t].append((f, inl, fl, ("A", p["d"]), None))
        for n in fl.cfg.livenodes():
            for e in fl.subexprs(n):
                if e["k"] == "call" and short(e.get("n", "")) in ("malloc", "calloc") or e["k"] == "new":
                    pass
        # fresh structs: a local of struct pointer type initialised from an allocation
        for d, v in fl.vars.items():
            t = rectype(v.get("t"))
            if t in S and is_ptr(v.get("t")) and not v.get("param"):
                for df in fl.by_local.get(d, []):
                    if df.e is None:
                        continue
                    ps = fl.pts(df.e, df.node)
                    for p in ps:
                        if p[0][0] == "N" and len(p) == 1 and strip_casts(df.e)["k"] in ("call", "new"):
                            work[t].append((f, inl, fl, p[0], df.node))
                            made[t] += 1
    for s, fields in S.items():
        ms = []
        for f, inl, fl, root, start in work[s]:
            m = Machine(prog, inl, fl, root, fields, start)
            own = any(x["k"] == "mem" and x.get("cls") == s for x in f.nodes())
            # a function that only passes the struct on to functions analysed themselves adds nothing
            if own or start is not None or any(ev[0] == "freeobj" for es in m.ev.values() for ev in es):
                ms.append((f, inl, m))
        if not ms:
            continue
        ptrs = [x["n"] for x in fields if is_ptr(x["t"])]
        cfgint = set()
        for f, inl, m in ms:
            for es in m.ev.values():
                for ev in es:
                    if ev[0] == "set" and ev[1] and not is_ptr(m.fields[ev[1]]["t"]) and ev[2]["k"] == "asgn":
                        r = strip_casts(ev[2]["c"][1])
                        if r["k"] == "ref" and (inl.pname.get(r.get("d")) is not None):
                            cfgint.add(ev[1])
        ints = [x["n"] for x in fields if not is_ptr(x["t"]) and x["n"] not in cfgint]
        res.count("structs")
        for fd in fields:
            nm = fd["n"]
            isp = is_ptr(fd["t"])
            if isp:
                cands = list(relations(ptrs, nm))
            elif nm in cfgint:
                cands = [((nm,), {(A,)}, "set")]
            else:
                cands = [((nm, g), {(Z, N), (A, O)}, "zero when %s is NULL" % g) for g in ptrs]
            best = None
            for names, inv, text in cands:
                errs = []
                sites = 0
                for f, inl, m in ms:
                    if not any(ev[1] in names or ev[0] == "freeobj" for es in m.ev.values() for ev in es) and m.start is None:
                        continue
                    sites += sum(1 for es in m.ev.values() for ev in es if ev[1] == nm)
                    init = inv if m.start is None else {tuple(U for _ in names)}
                    if m.start is not None and strip_alloc(m):
                        init = {tuple(N if is_ptr(m.fields[x]["t"]) else Z for x in names)}
                    es, end, released = m.run(names, init)
                    errs += [(f, inl, m) + x for x in es if x[1] == nm]
                    if released:
                        continue
                    for st in end:
                        x = st[0]
                        if x == U:
                            errs.append((f, inl, m, "uninit", nm, None, ""))
                        elif x == F:
                            errs.append((f, inl, m, "dangling", nm, None, ""))
                        elif isp and st not in inv and set(st) <= {N, O}:
                            errs.append((f, inl, m, "relation", nm, None, text))
                        elif not isp and nm not in cfgint and x == A and st[1] in (N, F):
                            errs.append((f, inl, m, "count", nm, None, ""))
                        elif f.short.endswith("_clear") and m.start is None and rectype(f.params[0]["t"]) == s:
                            if isp and len(names) == 1 and x != N and st in inv and not released and has_free(m):
                                errs.append((f, inl, m, "not-cleared", nm, None, ""))
                            elif isp and x == O and has_free(m):
                                errs.append((f, inl, m, "not-cleared", nm, None, ""))
                            elif not isp and nm not in cfgint and x != Z:
                                errs.append((f, inl, m, "not-cleared", nm, None, ""))
                if best is None or len(errs) < len(best[0]):
                    best = (errs, text, sites)
                if not errs:
                    break
            if best is None:
                continue
            errs, text, sites = best
            res.count("members")
            res.count("events on members", sites)
            if not errs:
                res.ok("owned-or-null", "%s.%s" % (s, nm), "%s in %d function(s)" % (text, len(ms)))
            done = set()
            for f, inl, m, kind, g, e, extra in errs:
                loc = inl.loc(e) if e is not None else f.loc()
                k = (kind, loc) if e is not None else (kind, "end")
                if k in done:
                    continue
                done.add(k)
                res.bad("owned-or-null", loc, "%s.%s" % (s, nm), "%s|%s|%s|%s" % (s, nm, kind, expr_str(e) if e is not None else f.short),
                        "%s.%s %s%s (in %s)" % (s, nm, MSG[kind], " [%s]" % expr_str(e) if e is not None else "", f.short))
        fams = [(f, inl) + x for f, inl, m in ms for x in m.families()]
        made_by = {}
        for f, inl, g, what, fam, e in fams:
            if what == "made":
                made_by.setdefault(g, set()).add(fam)
        seen = set()
        for f, inl, g, what, fam, e in fams:
            if what != "released" or (inl.loc(e), g) in seen or g not in made_by:
                continue
            seen.add((inl.loc(e), g))
            res.count("releases matched with their allocation")
            res.check(made_by[g] == {fam}, "matching-deallocator", inl.loc(e), "%s%s" % (s, g and "." + g), "%s|%s|%s" % (s, g, fam),
                      "%s releases %s%s with %s, but it was allocated with %s" % (f.short, s, g and "." + g, expr_str(e), " or ".join(sorted(made_by[g]))))
        seen = set()
        for f, inl, m in ms:
            for g, e, n, lost in m.nested(S):
                k = (inl.loc(e), g)
                if k in seen:
                    continue
                seen.add(k)
                res.check(not lost, "struct-released-with-its-contents", inl.loc(e), "%s.%s" % (s, g), "%s|%s|contents" % (s, g),
                          "%s frees the struct %s.%s but not what its %s point(s) to" % (f.short, s, g, ", ".join(lost)))
    temporaries(prog, res)
    res.floor("structs", 1)
    res.floor("members", 10)


def strip_alloc(m):
    n = m.start
    for e in m.fl.node_exprs(n):
        for x in walk(e):
            if x["k"] == "call" and short(x.get("n", "")) == "calloc":
                return True
    return False


def has_free(m):
    return any(ev[0] == "free" for es in m.ev.values() for ev in es)


def temporaries(prog, res):
    """a C function returning a pointer: the pointee outlives the call"""
    for f in prog.funcs.values():
        if f.body is None or "polytope_c/" not in f.rel or not is_ptr(f.d.get("rt")):
            continue
        res.count("pointer results")
        for x in f.nodes():
            if x["k"] != "return" or not x.get("c"):
                continue
            bad = dangling(f, x["c"][0])
            res.check(not bad, "result-outlives-call", f.loc(x), f.short, f.short, "%s returns a pointer into %s, which is gone when the caller uses it" % (f.short, bad))


def dangling(f, e, depth=0):
    e = strip_casts(e)
    if e is None or depth > 4:
        return None
    if e["k"] == "cond":
        return dangling(f, e["c"][1], depth + 1) or dangling(f, e["c"][2], depth + 1)
    if e["k"] == "un" and e["o"] == "&":
        b = strip_casts(e["c"][0])
        while b["k"] in ("idx", "opcall", "mem") and not b.get("arrow"):
            b = strip_casts(b["c"][0])
        v = local(f, b)
        return "the local '%s'" % v["n"] if v is not None and not v["t"].endswith("&") else None
    if e["k"] == "mcall" and (e.get("mn") or short(e.get("n", ""))) in ("c_str", "data", "begin"):
        b = strip_casts(e["c"][0])
        while b["k"] == "ctor" and len(b.get("c") or []) == 1:
            b = strip_casts(b["c"][0])
        if b["k"] in ("call", "mcall", "opcall") and not (b.get("rt") or "").endswith("&"):
            return "the temporary %s" % expr_str(b)
        if b["k"] == "ctor":
            return "a temporary"
        v = local(f, b)
        if v is not None and not v["t"].endswith("&"):
            return "the local '%s'" % v["n"]
    if e["k"] == "ref":
        v = local(f, e)
        if v is not None and "[" in v["t"]:
            return "the local '%s'" % v["n"]
        if v is not None and is_ptr(v["t"]) and isinstance(v.get("init"), dict):
            return dangling(f, v["init"], depth + 1)
    return None


def local(f, e):
    if e["k"] != "ref" or e.get("dk") != "local":
        return None
    for x in f.nodes():
        if x["k"] == "var" and x.get("d") == e["d"]:
            return None if x.get("static") else x
    return None
