"""Program model, inlining, CFG and access paths over the extracted trees."""
import heapq, itertools, os, re
from . import extract as X

REPO = X.REPO
AnalysisError = X.AnalysisError


# ----------------------------------------------------------------- tree utils
def kids(n):
    """All child nodes (expressions and statements)."""
    r = n.get("_k")
    if r is not None:
        return r
    n["_k"] = r = []
    for key in ("cv", "ini", "fn", "sz"):
        v = n.get(key)
        if isinstance(v, dict):
            r.append(v)
        elif isinstance(v, list):
            r.extend(x for x in v if isinstance(x, dict))
    c = n.get("c")
    if c:
        r.extend(x for x in c if isinstance(x, dict))
    i = n.get("init")
    if isinstance(i, dict):
        r.append(i)
    b = n.get("body")
    if isinstance(b, dict):
        r.append(b)
    return r


def walk(n):
    if n is None:
        return
    st = [n]
    while st:
        x = st.pop()
        yield x
        st.extend(reversed(kids(x)))


def short(q):
    return q.split("::")[-1] if q else q


def callee(n):
    return n.get("n", "") if n["k"] in ("call", "mcall", "opcall", "ctor") else ""


def is_call(n, *names):
    return n["k"] in ("call", "mcall") and (n.get("n") in names or short(n.get("n", "")) in names)


def strip_casts(n):
    while n is not None and n["k"] == "cast":
        n = n["c"][0]
    return n


def const(n):
    v = n.get("v") if n else None
    return v if isinstance(v, int) else None


def expr_str(n, depth=0):
    """Readable rendering for reports."""
    if n is None:
        return ""
    k = n["k"]
    c = n.get("c") or []
    if depth > 8:
        return "..."
    s = lambda x: expr_str(x, depth + 1)
    if k == "ref":
        return n.get("n", "?").split("::")[-1]
    if k == "mem":
        if c and c[0]["k"] == "this":
            return n["n"]
        return s(c[0]) + ("->" if n.get("arrow") else ".") + n["n"]
    if k in ("call",):
        return short(n.get("n", "?")) + "(" + ", ".join(s(x) for x in c) + ")"
    if k == "mcall":
        o = c[0]
        pre = "" if o["k"] == "this" else s(o) + ("->" if n.get("arrow") else ".")
        return pre + short(n.get("n", "?")) + "(" + ", ".join(s(x) for x in c[1:]) + ")"
    if k == "opcall":
        o = n["o"]
        if o == "[]":
            return s(c[0]) + "[" + s(c[1]) + "]"
        if o == "()":
            return s(c[0]) + "(" + ", ".join(s(x) for x in c[1:]) + ")"
        if len(c) == 1:
            return o + s(c[0])
        if o in ("++", "--"):
            return s(c[0]) + o
        return s(c[0]) + " " + o + " " + s(c[1])
    if k in ("bin", "asgn"):
        return s(c[0]) + " " + n["o"] + " " + s(c[1])
    if k == "un":
        return (s(c[0]) + n["o"]) if n.get("post") else n["o"] + s(c[0])
    if k == "idx":
        return s(c[0]) + "[" + s(c[1]) + "]"
    if k == "lit":
        if n.get("lk") == "str":
            return '"%s"' % n.get("s", "")
        return str(n.get("v", n.get("fv", n.get("lk"))))
    if k == "cond":
        return s(c[0]) + " ? " + s(c[1]) + " : " + s(c[2])
    if k == "cast":
        return s(c[0])
    if k == "ctor":
        return short(n.get("n", "")) + "(" + ", ".join(s(x) for x in c) + ")"
    if k == "this":
        return "this"
    if k == "new":
        return "new " + n.get("at", "")
    if k == "delete":
        return "delete " + s(c[0])
    if k == "sizeof":
        return "sizeof(%s)" % n.get("at")
    if k == "var":
        return n["n"] + (" = " + s(n["init"]) if isinstance(n.get("init"), dict) else "")
    if k == "decl":
        return ", ".join(s(x) for x in c)
    if k == "init":
        return "{" + ", ".join(s(x) for x in c) + "}"
    return k


class Func:
    def __init__(self, d, prog):
        self.d = d
        self.key = d["f"]
        self.name = d["n"]
        self.full = d["fn"]
        self.file = d["file"]
        self.line = d["line"]
        self.params = d["params"]
        self.body = d.get("body")
        self.cls = d.get("cls")
        self.prog = prog

    @property
    def rel(self):
        return os.path.relpath(self.file, REPO)

    @property
    def short(self):
        return short(self.name)

    def __repr__(self):
        return self.full

    def nodes(self):
        for i in self.d.get("inits") or []:
            if isinstance(i.get("e"), dict):
                yield from walk(i["e"])
        if self.body:
            yield from walk(self.body)

    def loc(self, n=None):
        return "%s:%d" % (self.rel, (n or {}).get("l", self.line))


class Program:
    def __init__(self, asserts=False):
        recs, self.meta = X.extract(asserts)
        self.funcs, self.records, self.globals, self.enums = {}, {}, {}, {}
        for d in recs:
            k = d["rec"]
            if k == "func":
                self.funcs[d["f"]] = Func(d, self)
            elif k == "record":
                self.records[d["n"]] = d
            elif k == "global":
                self.globals[d.get("gk") or d["n"]] = d
            elif k == "enum":
                self.enums[d["n"]] = d
        self.over = {}
        for f in self.funcs.values():
            for o in f.d.get("over") or []:
                self.over.setdefault(o, set()).add(f.key)
        # transitive overriders
        ch = True
        while ch:
            ch = False
            for b, s in list(self.over.items()):
                for x in list(s):
                    for y in self.over.get(x, ()):
                        if y not in s:
                            s.add(y)
                            ch = True

    def by_name(self, *names):
        """functions whose qualified name (sans template args) or short name matches."""
        return [f for f in self.funcs.values() if f.name in names or f.short in names]

    def callees(self, n):
        """possible in-repo targets of a call node."""
        if n["k"] not in ("call", "mcall", "opcall", "ctor"):
            return []
        k = n.get("f")
        r = []
        if k in self.funcs:
            r.append(self.funcs[k])
        if n.get("virt") and not n.get("qual"):
            for o in sorted(self.over.get(k, ())):
                r.append(self.funcs[o])
        return r

    def callgraph(self):
        if hasattr(self, "_cg"):
            return self._cg
        cg = {}
        for f in self.funcs.values():
            s = set()
            for n in f.nodes():
                for g in self.callees(n):
                    s.add(g.key)
                if n["k"] == "ref" and n.get("dk") == "func" and n.get("f") in self.funcs:
                    s.add(n["f"])
            cg[f.key] = s
        self._cg = cg
        return cg

    def reachable(self, keys):
        cg = self.callgraph()
        seen, st = set(), list(keys)
        while st:
            k = st.pop()
            if k in seen or k not in cg:
                continue
            seen.add(k)
            st.extend(cg[k])
        return seen

    def record_of(self, tname):
        t = tname.replace("const ", "").replace("&", "").replace("*", "").strip()
        return self.records.get(t)

    def fields(self, recname, bases=True):
        r = self.records.get(recname)
        if not r:
            return []
        out = []
        if bases:
            for b in r["bases"]:
                out += self.fields(b)
        return out + list(r["fields"])


# --------------------------------------------------------------------- inline
class Inliner:
    """Produces a copy of a function body in which calls to selected in-repo
    functions are replaced by 'inl' nodes: {k:'inl', c:[param decls.., body],
    ret: local id or None}.  All local ids are unique in the result."""

    def __init__(self, prog, want, maxdepth=8, budget=60000):
        self.prog, self.want, self.maxdepth, self.budget = prog, want, maxdepth, budget

    def run(self, func):
        self.next = itertools.count(1)
        self.size = 0
        self.inlined = set()
        self.lambdas = {}
        ren = {}
        body = self.copy(func.body, ren, None, [func.key], func)
        params = []
        for p in func.params:
            q = dict(p)
            q["d"] = self.rid(ren, p["d"])
            params.append(q)
        return Inl(func, params, body, self.prog, self.inlined)

    def rid(self, ren, d):
        if d not in ren:
            ren[d] = next(self.next)
        return ren[d]

    def copy(self, n, ren, this, stack, func):
        if n is None or not isinstance(n, dict):
            return n
        self.size += 1
        if self.size > self.budget:
            raise AnalysisError("inlining budget exceeded in " + stack[0])
        k = n["k"]
        if k == "this" and this is not None:
            return {"k": "ref", "dk": "local", "d": this, "n": "this", "l": n.get("l"), "isthis": True, "fl": func.rel, "t": n.get("t")}
        if k in ("call", "mcall") and not n.get("conv"):
            t = self.target(n, stack)
            if t is not None:
                return self.inl(n, t, ren, this, stack, func)
        if k == "opcall" and n.get("o") == "()" and n["c"] and strip_casts(n["c"][0])["k"] == "ref":
            lam = self.lambdas.get(ren.get(strip_casts(n["c"][0]).get("d")))
            if lam is not None and len(stack) <= self.maxdepth and id(lam[0]) not in stack:
                return self.inl_lambda(n, lam, ren, this, stack, func)
        if k == "var" and isinstance(n.get("init"), dict):
            li = n["init"]
            while li["k"] in ("cast", "ctor") and len(li.get("c") or []) == 1:
                li = li["c"][0]
            if li["k"] == "lambda":
                self.lambdas[self.rid(ren, n["d"])] = (li, ren, this, func)
        m = {}
        for key, v in n.items():
            if key == "_k":
                continue
            if key in ("c", "fn", "sz") and isinstance(v, list):
                m[key] = [self.copy(x, ren, this, stack, func) for x in v]
            elif key in ("init", "cv", "ini", "body") and isinstance(v, dict):
                m[key] = self.copy(v, ren, this, stack, func)
            elif key == "d":
                m[key] = self.rid(ren, v)
            elif key == "params" and k == "lambda":
                m[key] = [dict(p, d=self.rid(ren, p["d"])) for p in v]
            else:
                m[key] = v
        if len(stack) > 1 or True:
            m["fl"] = func.rel
        return m

    def target(self, n, stack):
        ts = self.prog.callees(n)
        if len(ts) != 1 or len(stack) > self.maxdepth:
            return None
        t = ts[0]
        if t.key in stack or t.body is None or t.d.get("ctor") or t.d.get("dtor"):
            return None
        if not self.want(t, n):
            return None
        return t

    def inl_lambda(self, n, lam, ren, this, stack, func):
        li, lren, lthis, lfunc = lam
        nren = dict(lren)
        decls = []
        for p, a in zip(li.get("params") or [], n["c"][1:]):
            nren.pop(p["d"], None)
            decls.append({"k": "var", "n": p["n"], "d": self.rid(nren, p["d"]), "t": p["t"], "init": self.copy(a, ren, this, stack, func),
                          "l": n.get("l"), "fl": func.rel, "inlparam": True})
        for x in walk(li.get("body")):
            if x["k"] == "var" and "d" in x:
                nren.pop(x["d"], None)
        body = self.copy(li.get("body"), nren, lthis, stack + [id(li)], lfunc)
        return {"k": "inl", "n": "lambda", "f": "lambda", "c": decls + [body], "ret": next(self.next), "l": n.get("l"), "fl": func.rel, "t": n.get("t"),
                "fn0": "lambda", "rt": n.get("t", "")}

    def inl(self, n, t, ren, this, stack, func):
        self.inlined.add(t.key)
        args = list(n["c"])
        nren = {}
        decls = []
        nthis = None
        if n["k"] == "mcall":
            obj = self.copy(args.pop(0), ren, this, stack, func)
            if not t.d.get("static"):
                nthis = next(self.next)
                if n.get("arrow") or obj.get("k") == "this" or obj.get("isthis"):
                    init = obj
                else:
                    init = {"k": "un", "o": "&", "c": [obj], "l": n.get("l"), "t": ""}
                decls.append({"k": "var", "n": "this", "d": nthis, "t": (t.cls or "") + " *", "init": init, "l": n.get("l"), "fl": func.rel, "inlparam": True})
        for p, a in itertools.zip_longest(t.params, args):
            if p is None or a is None:
                continue
            decls.append({"k": "var", "n": p["n"], "d": self.rid(nren, p["d"]), "t": p["t"], "init": self.copy(a, ren, this, stack, func),
                          "l": n.get("l"), "fl": func.rel, "inlparam": True})
        body = self.copy(t.body, nren, nthis, stack + [t.key], t)
        rid = next(self.next)
        return {"k": "inl", "n": t.name, "f": t.key, "c": decls + [body], "ret": rid, "l": n.get("l"), "fl": func.rel, "t": n.get("t"), "fn0": t.full,
                "rt": t.d["rt"]}


class Inl:
    """An inlined function: unit of intraprocedural analysis."""

    def __init__(self, func, params, body, prog, inlined):
        self.func, self.params, self.body, self.prog, self.inlined = func, params, body, prog, inlined
        self.ptype = {p["d"]: p["t"] for p in params}
        self.pname = {p["d"]: p["n"] for p in params}

    def nodes(self):
        return walk(self.body)

    def loc(self, n):
        return "%s:%s" % (n.get("fl") or self.func.rel, n.get("l", "?"))


def inline(prog, func, want=lambda t, n: False, **kw):
    return Inliner(prog, want, **kw).run(func)


# ------------------------------------------------------------------------ CFG
class Node:
    __slots__ = ("i", "kind", "e", "succ", "pred", "depth", "scope", "loops")

    def __init__(self, i, kind, e):
        self.i, self.kind, self.e = i, kind, e
        self.succ, self.pred = [], []
        self.loops = ()
        self.scope = ()


class CFG:
    """kinds: entry exit throw expr var cond(join-only nodes are 'nop').
    cond nodes have succ labels True/False (or ('case', v))."""

    def __init__(self, body, prog=None, prune=True):
        self.nodes = []
        self.prune = prune
        self.entry = self.new("entry", None)
        self.exit = self.new("exit", None)
        self.throw = self.new("throw", None)
        self.loopstack = []
        self.scopestack = []
        self.handlers = []
        self.scopes = {}
        self.ret_target = [(self.exit, None)]
        self.labels, self.gotos = {}, []
        self.inlrets = {}
        end = self.stmt(body, [(self.entry, None)])
        self.link(end, self.exit)
        for preds, name in self.gotos:
            if name in self.labels:
                self.link(preds, self.labels[name])
        self._reach()

    def new(self, kind, e):
        n = Node(len(self.nodes), kind, e)
        self.nodes.append(n)
        if hasattr(self, "loopstack"):
            n.loops = tuple(l[2] for l in self.loopstack if l[2] is not None)
            n.scope = tuple(self.scopestack)
        return n

    def link(self, preds, n):
        for p, lab in preds:
            p.succ.append((n, lab))
            n.pred.append((p, lab))

    def add(self, kind, e, preds):
        n = self.new(kind, e)
        self.link(preds, n)
        return [(n, None)]

    # hoists 'inl' nodes found in e, in evaluation order
    def hoist(self, e, preds):
        for x in self._inls(e):
            preds = self.do_inl(x, preds)
        return preds

    def _inls(self, e):
        if e is None:
            return []
        if e["k"] == "inl":
            return [e]
        if e["k"] == "lambda":
            return []
        r = []
        for c in kids(e):
            r += self._inls(c)
        return r

    def do_inl(self, x, preds):
        self.scopestack.append(id(x))
        for d in x["c"][:-1]:
            preds = self.stmt_var(d, preds)
        ends = []
        self.ret_target.append((None, (ends, x)))
        saved, self.loopstack = self.loopstack, [l for l in self.loopstack] + [("inl", None, None)]
        out = self.stmt(x["c"][-1], preds)
        self.loopstack = saved
        self.ret_target.pop()
        n = self.new("nop", x)
        self.scopestack.pop()
        self.link(out + ends, n)
        return [(n, None)]

    def stmt_var(self, d, preds):
        if isinstance(d.get("init"), dict):
            preds = self.hoist(d["init"], preds)
        return self.add("var", d, preds)

    def expr(self, e, preds):
        """expression evaluated for effect"""
        if e is None:
            return preds
        if e["k"] == "inl":
            return self.do_inl(e, preds)
        if e["k"] == "bin" and e["o"] == ",":
            return self.expr(e["c"][1], self.expr(e["c"][0], preds))
        if e["k"] == "throw":
            p = self.add("expr", e, preds)
            if self.handlers:
                self.handlers[-1].extend(p)
            else:
                self.link(p, self.throw)
            return []
        preds = self.hoist(e, preds)
        p = self.add("expr", e, preds)
        if any(x.get("nr") for x in walk(e) if x["k"] in ("call", "mcall")):
            self.link(p, self.throw)
            return []
        return p

    def cond(self, e, preds):
        """returns (true_preds, false_preds)"""
        if e is None:
            return preds, []
        k = e["k"]
        if k == "un" and e["o"] in ("!", "not"):
            t, f = self.cond(e["c"][0], preds)
            return f, t
        if k == "bin" and e["o"] in ("&&", "and"):
            t, f = self.cond(e["c"][0], preds)
            t2, f2 = self.cond(e["c"][1], t)
            return t2, f + f2
        if k == "bin" and e["o"] in ("||", "or"):
            t, f = self.cond(e["c"][0], preds)
            t2, f2 = self.cond(e["c"][1], f)
            return t + t2, f2
        v = const(e)
        if self.prune and v is not None:
            return (preds, []) if v else ([], preds)
        preds = self.hoist(e, preds)
        n = self.new("cond", e)
        self.link(preds, n)
        return [(n, True)], [(n, False)]

    def stmt(self, s, preds):
        if s is None:
            return preds
        k = s["k"]
        if k == "block":
            self.scopestack.append(id(s))
            for x in s["c"]:
                preds = self.stmt(x, preds)
            self.scopestack.pop()
            return preds
        if k == "decl":
            for d in s["c"]:
                preds = self.stmt_var(d, preds)
            return preds
        if k == "if":
            self.scopestack.append(id(s))
            if s.get("ini"):
                preds = self.stmt(s["ini"], preds)
            if s.get("cv"):
                preds = self.stmt_var(s["cv"], preds)
            c = s["c"]
            t, f = self.cond(c[0], preds)
            t = self.stmt(c[1], t)
            f = self.stmt(c[2] if len(c) > 2 else None, f)
            self.scopestack.pop()
            return t + f
        if k in ("for", "while", "do", "forrange"):
            return self.loop(s, preds)
        if k == "switch":
            return self.switch(s, preds)
        if k == "break":
            for l in reversed(self.loopstack):
                if l[0] is None or l[0] == "inl":
                    continue
                l[0].extend(preds)
                break
            return []
        if k == "continue":
            for l in reversed(self.loopstack):
                if l[1] is not None:
                    l[1].extend(preds)
                    break
            return []
        if k == "return":
            tgt = self.ret_target[-1]
            if s["c"]:
                preds = self.hoist(s["c"][0], preds)
            p = self.add("ret", s, preds)
            if tgt[0] is not None:
                self.link(p, tgt[0])
            else:
                tgt[1][0].extend(p)
                p[0][0].kind = "inlret"
                self.inlrets.setdefault(id(tgt[1][1]), []).append(p[0][0])
            return []
        if k == "try":
            h = []
            self.handlers.append(h)
            start = self.add("nop", s, preds)
            first = len(self.nodes)
            out = self.stmt(s["c"][0], start)
            last = len(self.nodes)
            self.handlers.pop()
            hp = h + start + [(self.nodes[i], None) for i in range(first, last) if self.nodes[i].kind in ("expr", "var")]
            for hb in s["c"][1:]:
                out = out + self.stmt(hb, list(hp))
            return out
        if k == "label":
            n = self.add("nop", s, preds)
            self.labels[s["n"]] = n[0][0]
            return self.stmt(s["c"][0], n)
        if k == "goto":
            self.gotos.append((preds, s["n"]))
            return []
        if k in ("case", "default"):
            return self.stmt(s["c"][-1], preds)
        if k == "null":
            return preds
        if k == "xs":
            for x in s.get("c") or []:
                preds = self.stmt(x, preds)
            return preds
        return self.expr(s, preds)

    def loop(self, s, preds):
        k = s["k"]
        brk, cnt = [], []
        self.scopestack.append(id(s))
        if k == "for":
            init, cond, inc, body = (s["c"] + [None] * 4)[:4]
            preds = self.stmt(init, preds)
            self.loopstack.append((brk, cnt, s))
            head = self.new("nop", {"k": "loophead", "l": s.get("l"), "s": s, "fl": s.get("fl")})
            self.link(preds, head)
            t, f = self.cond(cond, [(head, None)])
            t = self.stmt(body, t)
            t = self.expr(inc, t + cnt) if inc else t + cnt
            self.link(t, head)
        elif k == "while":
            self.loopstack.append((brk, cnt, s))
            head = self.new("nop", {"k": "loophead", "l": s.get("l"), "s": s, "fl": s.get("fl")})
            self.link(preds, head)
            t, f = self.cond(s["c"][0], [(head, None)])
            t = self.stmt(s["c"][1], t)
            self.link(t + cnt, head)
        elif k == "do":
            self.loopstack.append((brk, cnt, s))
            head = self.new("nop", {"k": "loophead", "l": s.get("l"), "s": s, "fl": s.get("fl")})
            self.link(preds, head)
            t = self.stmt(s["c"][0], [(head, None)])
            t, f = self.cond(s["c"][1], t + cnt)
            self.link(t, head)
        else:  # forrange
            var, rng, body = s["c"]
            preds = self.hoist(rng, preds)
            preds = self.add("range", s, preds)
            self.loopstack.append((brk, cnt, s))
            head = self.new("cond", {"k": "rangecond", "l": s.get("l"), "c": [rng], "s": s, "fl": s.get("fl")})
            self.link(preds, head)
            t, f = [(head, True)], [(head, False)]
            v = dict(var)
            v["rangeof"] = rng
            v.pop("init", None)
            t = self.add("var", v, t)
            t = self.stmt(body, t)
            self.link(t + cnt, head)
        self.loopstack.pop()
        self.scopestack.pop()
        return f + brk

    def switch(self, s, preds):
        cond, body = s["c"]
        preds = self.hoist(cond, preds)
        n = self.new("cond", cond)
        self.link(preds, n)
        brk = []
        self.loopstack.append((brk, None, None))
        self.scopestack.append(id(s))
        cur, hasdef = [], False
        items = body["c"] if body and body["k"] == "block" else [body]
        vals = []
        for x in items:
            while x is not None and x["k"] in ("case", "default"):
                if x["k"] == "default":
                    hasdef = True
                    cur = cur + [(n, ("case", None))]
                    x = x["c"][0]
                else:
                    v = const(x["c"][0])
                    vals.append(v)
                    cur = cur + [(n, ("case", v))]
                    x = x["c"][1]
            cur = self.stmt(x, cur)
        self.scopestack.pop()
        self.loopstack.pop()
        out = cur + brk
        if not hasdef and not s.get("allenum"):
            out = out + [(n, ("case", None))]
        return out

    def _reach(self):
        seen = set()
        st = [self.entry]
        while st:
            n = st.pop()
            if n.i in seen:
                continue
            seen.add(n.i)
            st.extend(x for x, _ in n.succ)
        self.live = seen
        for n in self.nodes:
            n.pred = [(p, l) for p, l in n.pred if p.i in seen]

    def livenodes(self):
        return [n for n in self.nodes if n.i in self.live]

    # dominators / post-dominators (sets as bitmasks)
    def dominators(self, post=False, exits=None):
        nodes = self.livenodes()
        full = 0
        for n in nodes:
            full |= 1 << n.i
        dom = {n.i: full for n in nodes}
        if post:
            roots = exits or [self.exit]
        else:
            roots = [self.entry]
        for r in roots:
            dom[r.i] = 1 << r.i
        rootids = {r.i for r in roots}
        order = nodes if not post else list(reversed(nodes))
        ch = True
        while ch:
            ch = False
            for n in order:
                if n.i in rootids:
                    continue
                ps = n.succ if post else n.pred
                ps = [p for p, _ in ps if p.i in self.live]
                if not ps:
                    if post:
                        continue
                    continue
                v = full
                for p in ps:
                    v &= dom[p.i]
                v |= 1 << n.i
                if v != dom[n.i]:
                    dom[n.i] = v
                    ch = True
        return dom

    def between(self, a, b, stop=()):
        """is b reachable from (after) a without passing nodes in stop"""
        seen = set()
        st = [x for x, _ in a.succ]
        while st:
            n = st.pop()
            if n.i in seen:
                continue
            seen.add(n.i)
            if n is b:
                return True
            if n in stop:
                continue
            st.extend(x for x, _ in n.succ)
        return False

    def forward(self, init, transfer, join, start=None):
        """generic forward dataflow: transfer(node, state)->state or dict label->state.
        Returns in-states."""
        ins = {self.entry.i: init}
        pos = self.rpo()
        work = [(0, self.entry.i)]
        inq = {self.entry.i}
        it = 0
        while work:
            it += 1
            if it > 2000000:
                raise AnalysisError("dataflow does not converge")
            _, i = heapq.heappop(work)
            n = self.nodes[i]
            inq.discard(i)
            out = transfer(n, ins[i])
            for s, lab in n.succ:
                o = out(lab) if callable(out) else out
                if o is None:
                    continue
                if s.i not in ins:
                    ins[s.i] = o
                    ch = True
                else:
                    m = join(ins[s.i], o)
                    ch = m != ins[s.i]
                    if ch:
                        ins[s.i] = m
                if ch and s.i not in inq:
                    inq.add(s.i)
                    heapq.heappush(work, (pos[s.i], s.i))
        return ins

    def rpo(self):
        if hasattr(self, "_rpo"):
            return self._rpo
        seen, order = set(), []
        st = [(self.entry, iter(self.entry.succ))]
        seen.add(self.entry.i)
        while st:
            n, it = st[-1]
            for x, _ in it:
                if x.i not in seen:
                    seen.add(x.i)
                    st.append((x, iter(x.succ)))
                    break
            else:
                order.append(n.i)
                st.pop()
        self._rpo = {i: k for k, i in enumerate(reversed(order))}
        return self._rpo
