"""MPI knowledge shared by the parallel rules."""
from .ir import AnalysisError, Inliner, callee, const, expr_str, kids, short, strip_casts, walk
from .flow import ELEM, Flow, MUTATORS, deref_local, is_cont, is_ptrlike, is_ref, is_scalar

# name -> (indices of arguments that must be the same on all ranks, output argument indices)
COLL = {
    "MPI_Bcast": ((1, 2, 3, 4), (0,)),
    "MPI_Barrier": ((0,), ()),
    "MPI_Allreduce": ((2, 3, 4, 5), (1,)),
    "MPI_Reduce": ((2, 3, 4, 5, 6), ()),
    "MPI_Gather": ((1, 2, 4, 5, 6, 7), ()),
    "MPI_Gatherv": ((2, 5, 6, 7), ()),
    "MPI_Allgather": ((1, 2, 4, 5, 6), (3,)),
    "MPI_Allgatherv": ((2, 5, 6, 7), (3,)),
    "MPI_Scatter": ((1, 2, 4, 5, 6, 7), ()),
    "MPI_Scatterv": ((2, 5, 6, 7), ()),
    "MPI_Alltoall": ((1, 2, 4, 5, 6), ()),
    "MPI_Alltoallv": ((3, 7, 8), ()),
    "MPI_Scan": ((2, 3, 4, 5), ()),
    "MPI_Exscan": ((2, 3, 4, 5), ()),
    "MPI_Reduce_scatter": ((3, 4, 5), ()),
    "MPI_Comm_dup": ((0,), ()),
    "MPI_Comm_split": ((0,), ()),
    "MPI_Comm_free": ((), ()),
    "PMPIO_Init": ((0, 1, 2, 3), ()),
}
SENDS = {"MPI_Send", "MPI_Isend", "MPI_Ssend", "MPI_Issend", "MPI_Bsend", "MPI_Ibsend", "MPI_Rsend", "MPI_Irsend"}
ASYNC_SENDS = {"MPI_Isend", "MPI_Issend", "MPI_Ibsend", "MPI_Irsend"}
RECVS = {"MPI_Recv", "MPI_Irecv"}
WAITS = {"MPI_Wait", "MPI_Waitall", "MPI_Waitany", "MPI_Waitsome", "MPI_Testall", "MPI_Test"}


def mpi_name(n):
    if n["k"] != "call":
        return None
    s = n.get("n", "")
    return s if s.startswith(("MPI_", "PMPIO_")) else None


def direct_names(f):
    s = set()
    for n in f.nodes():
        m = mpi_name(n)
        if m:
            s.add(m)
    return s


def functions_reaching(prog, names):
    """keys of functions that may execute a call to one of `names`."""
    cg = prog.callgraph()
    hit = {k for k, f in prog.funcs.items() if f.body is not None and direct_names(f) & names}
    ch = True
    while ch:
        ch = False
        for k, s in cg.items():
            if k not in hit and s & hit:
                hit.add(k)
                ch = True
    return hit


def single_callees(prog, f):
    """callees that the inliner can follow (exactly one target, not a constructor)"""
    r = set()
    for n in f.nodes():
        if n["k"] in ("call", "mcall"):
            ts = prog.callees(n)
            if len(ts) == 1 and ts[0].body is not None and not ts[0].d.get("ctor") and not ts[0].d.get("dtor"):
                r.add(ts[0].key)
    return r


def roots(prog, hit):
    """members of hit into which no other member of hit can be inlined into"""
    called = set()
    for k in hit:
        called |= {c for c in single_callees(prog, prog.funcs[k]) if c != k}
    return sorted(k for k in hit if k not in called)


def units(prog, hit, extra=lambda t: False, budget=400000):
    """(function, Inl) covering every member of hit once, callers first"""
    done = set()
    for key in roots(prog, hit) + sorted(hit):
        f = prog.funcs[key]
        if f.body is None or key in done:
            continue
        inl = inline_for(prog, key, hit, extra, budget)
        done |= inl.inlined | {key}
        yield f, inl


def closure(prog, direct):
    """functions that call, directly or not, a member of `direct` (members included)"""
    cg = prog.callgraph()
    hit = set(direct)
    ch = True
    while ch:
        ch = False
        for k, s in cg.items():
            if k not in hit and s & hit:
                hit.add(k)
                ch = True
    return hit


def inline_for(prog, key, hit, extra=lambda t: False, budget=400000):
    """inline every callee that may perform the calls of interest, plus small helpers"""
    f = prog.funcs[key]
    small = {}

    def size(t):
        if t.key not in small:
            small[t.key] = sum(1 for _ in t.nodes())
        return small[t.key]
    return Inliner(prog, lambda t, n: t.key in hit or extra(t) or size(t) < 400, maxdepth=10, budget=budget).run(f)


def back_slice(fl, e, node, limit=4000):
    """all (kind, item) on the backward data slice of expression e at node:
    ('call', callnode, cfgnode), ('def', Def), ('place', place)"""
    out_calls, places, defs = [], set(), set()
    work = [(e, node)]
    done = set()
    while work and len(done) < limit:
        x, n = work.pop()
        if x is None:
            continue
        if (id(x), n.i) in done:
            continue
        done.add((id(x), n.i))
        k = x["k"]
        if k == "inl":
            for n2, r in fl.rets(x):
                work.append((r, n2))
            continue
        if k == "ref" and x.get("dk") in ("local", "param"):
            d = x["d"]
            if is_ref(fl.tname(d)):
                for df in fl.by_local.get(d, []):
                    if df.e is not None and df.i not in defs:
                        defs.add(df.i)
                        work.append((df.e, df.node))
                for p in fl.lv(x, n):
                    places.add(p)
                    if p[0][0] == "L":
                        for df in fl.reaching(n, p[0][1]):
                            if df.i not in defs:
                                defs.add(df.i)
                                work.append((df.e, df.node))
                                if df.kind == "byref":
                                    out_calls.append((df.e, df.node))
                continue
            places.add((fl.root(d),))
            for df in fl.reaching(n, d):
                if df.i in defs:
                    continue
                defs.add(df.i)
                if df.e is not None:
                    if df.kind == "byref":
                        out_calls.append((df.e, df.node))
                    work.append((df.e, df.node))
            continue
        if k in ("mem", "idx", "opcall", "mcall"):
            for p in fl.lv(x, n):
                places.add(p)
        if k in ("call", "mcall"):
            out_calls.append((x, n))
        for y in kids(x):
            work.append((y, n))
    return out_calls, places, defs


class Uniform:
    """Which locals may differ between ranks, flow-sensitively.  State: frozenset
    of divergent cells (local id, or ('T', field))."""

    def __init__(self, prog, fl, policy):
        self.prog, self.fl, self.cfg = prog, fl, fl.cfg
        self.policy = policy
        self._control()
        self._run()

    # ---- control dependence
    def _control(self):
        cfg = self.cfg
        live = cfg.livenodes()
        # backward reachability to exit: ignore paths that only abort
        can = set()
        st = [cfg.exit]
        while st:
            n = st.pop()
            if n.i in can:
                continue
            can.add(n.i)
            st.extend(p for p, _ in n.pred)
        self.can = can
        self.pdom = cfg.dominators(post=True)
        self.ipd = {}
        depth = {i: bin(v).count("1") for i, v in self.pdom.items() if i in can}
        for n in live:
            if n.kind != "cond" or n.i not in can:
                continue
            cand = self.pdom[n.i] & ~(1 << n.i)
            best = None
            while cand:
                b = cand & -cand
                i = b.bit_length() - 1
                cand ^= b
                if i in depth and (best is None or depth[i] > depth[best]):
                    best = i
            self.ipd[n.i] = best
        self.regions = {}
        self.controls = {}
        for n in live:
            if n.i not in self.ipd:
                continue
            stop = self.ipd[n.i]
            reg = set()
            st = [s for s, _ in n.succ]
            if len({s.i for s, _ in n.succ if s.i in can}) < 2:
                self.regions[n.i] = set()
                continue
            while st:
                x = st.pop()
                if x.i == stop or x.i in reg or x.i not in can:
                    continue
                reg.add(x.i)
                st.extend(s for s, _ in x.succ)
            self.regions[n.i] = reg
            for i in reg:
                self.controls.setdefault(i, set()).add(n.i)

    # ---- taint
    def place_div(self, p, st):
        r = p[0]
        if r[0] == "L":
            return r[1] in st
        if r[0] == "A":
            if p[-1] == "dimension":
                return False
            return self.policy(self.fl, r[1]) or r[1] in st
        if r[0] == "T":
            return ("T",) + p[1:2] in st or self.policy(self.fl, ("T",) + p[1:])
        if r[0] in ("G", "F"):
            return ("G", r[1]) in st
        if r[0] == "N":
            return r in st
        return None

    def div(self, e, n, st):
        """may the value of e differ between ranks"""
        if e is None:
            return False
        k = e["k"]
        c = e.get("c") or []
        if k == "inl":
            for n2, x in self.fl.rets(e):
                if ("ret", id(e)) in st:
                    return True
            return ("ret", id(e)) in st
        if k == "lit" or k == "sizeof":
            return False
        if k == "this":
            return False
        if k == "ref":
            if e.get("dk") in ("local", "param"):
                d = e["d"]
                t = self.fl.tname(d)
                if is_ref(t):
                    ps = self.fl.lv(e, n)
                    return d in st or any(self.place_div(p, st) for p in ps) or (not ps)
                v = self.fl.vars.get(d, {})
                if v.get("param"):
                    return d in st or (self.policy(self.fl, d) and not self._written(d, n))
                if is_ptrlike(t):
                    return d in st or any(self.place_div(p, st) for p in self.fl.pts(e, n))
                return d in st
            if e.get("dk") == "global":
                return ("G", e.get("n")) in st
            return False
        if k == "mem":
            ps = self.fl.lv(e, n)
            r = [self.place_div(p, st) for p in ps]
            if any(r):
                return True
            if all(x is not None for x in r) and ps:
                # fields reached through a divergent pointer expression
                return any(self.div(x, n, st) for x in c if strip_casts(x)["k"] not in ("this", "ref", "mem"))
            return any(self.div(x, n, st) for x in c)
        if k in ("call", "mcall"):
            nm = e.get("n", "")
            if nm.startswith("MPI_"):
                return False
            if short(nm) == "size" and False:
                return False
        return any(self.div(x, n, st) for x in kids(e))

    def _written(self, d, n):
        return any(x.kind != "param" for x in self.fl.reaching(n, d)) and not any(x.kind == "param" for x in self.fl.reaching(n, d))

    def ctl(self, n):
        return any(c in self.divconds for c in self.controls.get(n.i, ()))

    def setp(self, st, places, div, strong):
        st = set(st)
        for p in places:
            r = p[0]
            key = r[1] if r[0] in ("L", "A") else (("T",) + p[1:2] if r[0] == "T" else ("G", r[1]) if r[0] == "G" else r)
            if div:
                st.add(key)
            elif strong and len(places) == 1 and len(p) == 1:
                st.discard(key)
        return frozenset(st)

    def agreed(self, n):
        """locals that took part in a reduction this (equality) condition tests"""
        e = strip_casts(n.e)
        if not (e["k"] == "bin" and e["o"] in ("==", "!=")):
            return None
        res = set()
        calls, _, _ = back_slice(self.fl, e, n)
        for c, cn in calls:
            if mpi_name(c) == "MPI_Allreduce":
                _, places, _ = back_slice(self.fl, c["c"][0], cn)
                for p in places:
                    if p[0][0] in ("L", "A"):
                        res.add(p[0][1])
        return (e["o"], res) if res else None

    def transfer(self, n, st):
        fl = self.fl
        e = n.e
        ctl = self.ctl(n)
        if n.kind == "var":
            v = e
            if isinstance(v.get("init"), dict):
                st = self.effects(v["init"], n, st, ctl)
                if "d" in v and is_ref(v.get("t")):
                    # a reference to a temporary carries the value itself
                    if all(p[0][0] in ("V", "C") for p in fl.lv(v["init"], n)):
                        dv = self.div(v["init"], n, st) or ctl
                        st = frozenset(st | {v["d"]}) if dv else frozenset(st - {v["d"]})
                elif "d" in v:
                    dv = self.div(v["init"], n, st) or ctl
                    st = frozenset(st | {v["d"]}) if dv else frozenset(st - {v["d"]})
            elif v.get("rangeof") is not None:
                if "d" in v and not is_ref(v.get("t")):
                    dv = self.div(v["rangeof"], n, st) or ctl
                    st = frozenset(st | {v["d"]}) if dv else frozenset(st - {v["d"]})
            elif "d" in v:
                st = frozenset(st - {v["d"]})
            return st
        if n.kind in ("ret", "inlret"):
            if e.get("c"):
                x = e["c"][0]
                st = self.effects(x, n, st, ctl)
                if n.kind == "inlret":
                    inl = self.retof.get(n.i)
                    if inl is not None:
                        key = ("ret", inl)
                        dv = self.div(x, n, st) or ctl
                        if dv:
                            st = frozenset(st | {key})
            return st
        if n.kind == "expr":
            return self.effects(e, n, st, ctl)
        if n.kind == "cond" and e["k"] != "rangecond":
            st = self.effects(e, n, st, ctl)
            ag = self.agree.get(n.i)
            if ag:
                o, ids = ag
                clean = frozenset(x for x in st if x not in ids)
                return lambda lab: clean if (lab is True) == (o == "==") else st
            return st
        return st

    def effects(self, e, n, st, ctl):
        fl = self.fl
        if e is None or e["k"] == "inl":
            return st
        k = e["k"]
        c = e.get("c") or []
        if k == "lambda":
            return st
        for x in kids(e):
            st = self.effects(x, n, st, ctl)
        if k == "asgn" or (k == "opcall" and e["o"] in ("=", "+=", "-=", "*=", "/=", "|=", "&=", "<<=", ">>=", "<<")) and len(c) == 2:
            dst = fl.lv(c[0], n)
            dv = self.div(c[1], n, st) or ctl or self.idxdiv(c[0], n, st)
            if e["o"] != "=":
                dv = dv or self.div(c[0], n, st)
            if is_ptrlike(c[0].get("t")):
                d = deref_local(c[0])
                if d is not None:
                    return frozenset(st | {d}) if dv else frozenset(st - {d})
            return self.setp(st, dst, dv, e["o"] == "=" or not dv)
        if k == "un" and e["o"] in ("++", "--") or k == "opcall" and e["o"] in ("++", "--"):
            if ctl:
                d = deref_local(c[0])
                if d is not None:
                    return frozenset(st | {d})
                return self.setp(st, fl.lv(c[0], n), True, False)
            return st
        if k in ("call", "mcall", "opcall", "ctor"):
            nm = mpi_name(e) or ""
            args = list(c)
            if nm in COLL:
                _, outs = COLL[nm]
                un = not any(self.div(args[i], n, st) for i in COLL[nm][0] if i < len(args))
                for o in outs:
                    if o < len(args):
                        ps = fl.pts(args[o], n)
                        # a broadcast makes the whole buffer the same everywhere
                        roots_ = {p[:1] if p[0][0] == "L" else p for p in ps}
                        st = self.setp(st, roots_, not un, True)
                return st
            if nm == "MPI_Comm_size":
                return self.setp(st, fl.pts(args[1], n), False, True)
            if nm == "MPI_Comm_rank" or nm in ("PMPIO_GroupRank", "PMPIO_RankInGroup"):
                if len(args) > 1:
                    return self.setp(st, fl.pts(args[1], n), True, False)
                return st
            # other calls: modified arguments become divergent if any input is
            pm = e.get("pm") or []
            objs = []
            if k == "mcall" or (k == "opcall" and e.get("meth")):
                o = args.pop(0)
                if not e.get("cm"):
                    objs.append(fl.obj(e, n) if k == "mcall" else fl.lv(o, n))
            anyd = ctl or any(self.div(x, n, st) for x in c)
            for i, a in enumerate(args):
                m = pm[i] if i < len(pm) else "v"
                if m == "m":
                    objs.append(fl.lv(a, n))
                elif m == "mp" and "ompi_" not in (a.get("t") or ""):
                    objs.append(fl.pts(a, n))
            t = short(e.get("n", ""))
            if t in ("copy", "fill", "transform", "set_intersection", "sort", "unique", "replace_if", "iota", "swap", "fill_n", "copy_n"):
                for a in args:
                    if is_ptrlike(a.get("t")):
                        objs.append(fl.pts(a, n))
            strong = k == "mcall" and t in ("assign", "clear") or (k == "opcall" and e["o"] == "=")
            for ps in objs:
                st = self.setp(st, ps, anyd, strong)
            return st
        return st

    def idxdiv(self, e, n, st):
        for x in walk(e):
            if x["k"] == "idx" or (x["k"] == "opcall" and x["o"] == "[]"):
                if self.div(x["c"][1], n, st):
                    return True
        return False

    def _run(self):
        cfg = self.cfg
        self.retof = {}
        for key, ns in cfg.inlrets.items():
            for n in ns:
                self.retof[n.i] = key
        self.agree = {}
        for n in cfg.livenodes():
            if n.kind == "cond" and n.e["k"] != "rangecond":
                a = self.agreed(n)
                if a:
                    self.agree[n.i] = a
        self.divconds = set()
        for _ in range(12):
            ins = cfg.forward(frozenset(), self.transfer, lambda a, b: a | b)
            new = set()
            for n in cfg.livenodes():
                if n.kind == "cond" and n.i in ins and n.i in self.regions and self.regions[n.i]:
                    e = n.e["c"][0] if n.e["k"] == "rangecond" else n.e
                    if self.div(e, n, ins[n.i]):
                        new.add(n.i)
            new |= self.divconds
            if new == self.divconds:
                break
            self.divconds = new
        self.ins = ins
