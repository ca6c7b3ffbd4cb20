"""Abstract evaluation of small loop-free (or constant-loop) functions in the domain of
value numbers: every scalar is a polynomial over the unknown inputs, every object a set of
members, comparisons of unknowns are answered by an oracle (one abstract order relation per
pair of corresponding unknowns).  Anything outside the domain raises Und: undecided."""
import re

from .effects import poly
from .ir import short, strip_casts
from .flow import bare, is_ptr


class Und(Exception):
    pass


class _Brk(Exception):
    pass


class _Cont(Exception):
    pass


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class Obj:
    """an object with lazily created members; name is its symbolic name (None: fresh)"""

    def __init__(self, name, cls=None):
        self.name, self.cls, self.f = name, cls, {}

    def copy(self):
        o = Obj(self.name, self.cls)
        o.f = {k: v.copy() if isinstance(v, Obj) else v for k, v in self.f.items()}
        return o


K = lambda v: ("k", v)


def num(t):
    p = poly(t)
    if not p:
        return 0
    if set(p) == {()}:
        return p[()]
    return None


class Interp:
    def __init__(self, prog, oracle=None, atoms=None):
        """oracle(op, a, b) -> bool for comparisons of unknown terms; atoms(term) -> bool for unknown booleans"""
        self.prog, self.oracle, self.atoms = prog, oracle, atoms
        self.fuel = 6000
        self.ext = {}          # models of functions without a body: name -> f(args)

    # ---- lvalues: (holder, key) with holder an Obj or an env dict
    def load(self, lv):
        h, k = lv
        if isinstance(h, dict):
            if k not in h:
                raise Und("unset variable")
            return h[k]
        if k not in h.f:
            if h.name is None:
                raise Und("unset member %s" % (k,))
            h.f[k] = self.fresh(h, k)
        return h.f[k]

    def fresh(self, h, k):
        name = ("x", h.name, K(k)) if isinstance(k, int) else ("m", h.name, k)
        t = self.field_type(h.cls, k)
        if t and re.search(r"\[\d+\]$", t):
            return Obj(name, "[]")
        if t and bare(t) in self.prog.records:
            return Obj(name, bare(t))
        if t and (t.startswith(("std::pair<", "const std::pair<"))):
            return Obj(name, bare(t))
        return name

    def field_type(self, cls, k):
        if cls and cls in self.prog.records:
            for c in [cls] + [bare(b) for b in self.prog.records[cls].get("bases", [])]:
                for fd in self.prog.records.get(c, {}).get("fields", []):
                    if fd["n"] == k:
                        return fd["t"]
        return None

    def store(self, lv, v):
        h, k = lv
        if isinstance(v, Obj):
            v = v.copy()
        if isinstance(h, dict):
            if isinstance(h.get(k), Obj) and isinstance(v, Obj):
                h[k].f, h[k].name, h[k].cls = v.f, v.name, v.cls     # keep references to it valid
            else:
                h[k] = v
        else:
            h.f[k] = v

    # ---- calls
    def param(self, i, t):
        """symbolic argument for a parameter of type t"""
        b = bare(t)
        if is_ptr(t):
            return ("addr", Obj(("p", i)), 0)
        if b in self.prog.records or b.startswith("std::pair<"):
            return Obj(("p", i), b)
        return ("p", i)

    def call(self, f, this, args):
        """args: list of values, or ('lv', holder, key) for references"""
        self.fuel -= 1
        if self.fuel < 0:
            raise Und("too deep")
        if f.body is None and not f.d.get("inits"):
            raise Und("no body")
        env = {"this": this, "refs": {}}
        for p, a in zip(f.params, args):
            if isinstance(a, tuple) and a and a[0] == "lv":
                if "&" in p["t"]:
                    env["refs"][p["d"]] = (a[1], a[2])
                else:
                    v = self.load((a[1], a[2]))
                    env[p["d"]] = v.copy() if isinstance(v, Obj) else v
            else:
                env[p["d"]] = a
        if f.d.get("ctor"):
            for it in f.d.get("inits") or []:
                if it.get("base") or it.get("n") is None:
                    raise Und("base initialiser")
                this.f[it["n"]] = self.val(it["e"], env)
        try:
            if f.body is not None:
                self.stmt(f.body, env)
        except _Ret as r:
            return r.v
        return None

    # ---- statements
    def stmt(self, s, env):
        self.fuel -= 1
        if self.fuel < 0:
            raise Und("too long")
        k = s["k"]
        c = s.get("c") or []
        if k == "block":
            for x in c:
                self.stmt(x, env)
        elif k == "decl":
            for x in c:
                self.stmt(x, env)
        elif k == "var":
            if s.get("asz") is not None or re.search(r"\[\d+\]$", s.get("t") or ""):
                o = Obj(None, "[]")
                it = s.get("init")
                if it is not None and it["k"] != "init":
                    raise Und("array initialiser")
                if it is not None:
                    n = s.get("asz") or int(re.search(r"\[(\d+)\]$", s["t"]).group(1))
                    for i in range(n):
                        x = it["c"][i] if i < len(it["c"]) else None
                        o.f[i] = K(0) if x is None or x["k"] == "x" else self.val(x, env)
                env[s["d"]] = o
                return
            if s.get("init") is None:
                b = bare(s["t"])
                env[s["d"]] = Obj(None, b) if b in self.prog.records else ("undef", s["d"])
                return
            if "&" in (s.get("t") or "") or s.get("t", "").endswith("&"):
                try:
                    env["refs"][s["d"]] = self.lval(s["init"], env)
                    return
                except Und:
                    pass
            v = self.val(s["init"], env)
            env[s["d"]] = v.copy() if isinstance(v, Obj) else v
        elif k == "return":
            if not c or c[0] is None:
                raise _Ret(None)
            rt = None
            try:
                lv = self.lval(c[0], env)
                raise _Ret(("lv", lv[0], lv[1]))
            except Und:
                pass
            raise _Ret(self.val(c[0], env))
        elif k == "if":
            if self.truth(c[0], env):
                self.stmt(c[1], env)
            elif len(c) > 2 and c[2] is not None:
                self.stmt(c[2], env)
        elif k == "for":
            if c[0] is not None:
                self.stmt(c[0], env)
            n = 0
            while c[1] is None or self.truth(c[1], env):
                n += 1
                if n > 64:
                    raise Und("loop")
                try:
                    self.stmt(c[3], env)
                except _Brk:
                    break
                except _Cont:
                    pass
                if c[2] is not None:
                    self.val(c[2], env)
        elif k == "while":
            n = 0
            while self.truth(c[0], env):
                n += 1
                if n > 64:
                    raise Und("loop")
                try:
                    self.stmt(c[1], env)
                except _Brk:
                    break
                except _Cont:
                    pass
        elif k == "break":
            raise _Brk()
        elif k == "continue":
            raise _Cont()
        elif k in ("null", "nop"):
            pass
        elif k == "xs":
            self.val(c[0], env)
        elif k in ("do", "forrange", "switch", "try", "goto", "label"):
            raise Und(k)
        else:
            self.val(s, env)

    # ---- expressions
    def deref(self, v):
        if isinstance(v, tuple) and v and v[0] == "lv":
            return self.load((v[1], v[2]))
        return v

    def truth(self, e, env):
        v = self.val(e, env)
        if isinstance(v, bool):
            return v
        if isinstance(v, tuple):
            x = num(v)
            if x is not None:
                return bool(x)
            if self.atoms is not None:
                return self.atoms(v)
        raise Und("condition")

    def lval(self, e, env):
        e = strip_casts(e)
        k = e["k"]
        c = e.get("c") or []
        if k == "ref" and e.get("dk") in ("local", "param"):
            if e["d"] in env["refs"]:
                return env["refs"][e["d"]]
            return (env, e["d"])
        if k == "mem":
            o = self.obj(c[0], env, e.get("arrow"))
            return (o, e["n"])
        if k == "un" and e["o"] == "*" or k == "idx":
            v = self.val(c[0], env)
            off = 0
            if k == "idx":
                off = num(self.val(c[1], env))
            if isinstance(v, tuple) and v and v[0] == "addr" and off is not None:
                return self.at(v, off)
            if isinstance(v, Obj) and k == "un":
                return ({"o": v}, "o")
            raise Und("dereference")
        if k == "this":
            return (env, "this")
        if k in ("call", "mcall", "opcall"):
            r = self.do_call(e, env)
            if isinstance(r, tuple) and r and r[0] == "lv":
                return (r[1], r[2])
            raise Und("not an lvalue")
        if k == "cond":
            return self.lval(c[1] if self.truth(c[0], env) else c[2], env)
        if k in ("asgn",) or k == "un" and e["o"] in ("++", "--") and not e.get("post"):
            self.val(e, env)
            return self.lval(c[0], env)
        raise Und("lvalue " + k)

    def at(self, a, off):
        """element off of the address a"""
        _, o, key = a
        if isinstance(key, int):
            return (o, key + off)
        if off == 0:
            return (o, key)
        fs = [fd for fd in self.prog.records.get(o.cls, {}).get("fields", [])]
        names = [fd["n"] for fd in fs]
        i = names.index(key) if key in names else -1
        if i < 0 or not (0 <= i + off < len(names)) or len({bare(fs[x]["t"]) for x in range(min(i, i + off), max(i, i + off) + 1)}) != 1:
            raise Und("address arithmetic")
        return (o, names[i + off])

    def obj(self, e, env, arrow=False):
        e = strip_casts(e)
        if e["k"] == "this":
            return env["this"]
        if arrow:
            v = self.val(e, env)
            if isinstance(v, tuple) and v and v[0] == "addr":
                v = self.load((v[1], v[2]))
            if isinstance(v, Obj):
                return v
            raise Und("arrow")
        v = self.val(e, env)
        if isinstance(v, Obj):
            return v
        if isinstance(v, tuple) and v and v[0] in ("m", "p", "x"):
            return Obj(v)
        raise Und("object")

    def args(self, e, env, xs):
        pm = e.get("pm") or []
        r = []
        for i, a in enumerate(xs):
            m = pm[i] if i < len(pm) else "v"
            if m in ("m", "c", "r"):
                try:
                    h, k = self.lval(a, env)
                    r.append(("lv", h, k))
                    continue
                except Und:
                    pass
            r.append(self.val(a, env))
        return r

    def do_call(self, e, env):
        k = e["k"]
        c = list(e.get("c") or [])
        fs = self.prog.callees(e)
        s = e.get("mn") or short(e.get("n", ""))
        if s in self.ext and k == "call":
            return self.ext[s](self, [self.val(x, env) for x in c])
        if len(fs) == 1 and (fs[0].body is not None or fs[0].d.get("inits")):
            f = fs[0]
            this = None
            if k == "ctor":
                this = Obj(None, e.get("cls"))
                self.call(f, this, self.args(e, env, c))
                return this
            if k == "mcall" or k == "opcall" and e.get("meth"):
                o = c.pop(0)
                this = self.obj(o, env, e.get("arrow"))
            return self.call(f, this, self.args(e, env, c))
        if k == "ctor":
            if len(c) == 1 and (e.get("copy") or bare(c[0].get("t")) == bare(e.get("t"))):
                v = self.val(c[0], env)
                return v.copy() if isinstance(v, Obj) else v
            if not c:
                return Obj(None, e.get("cls"))
            if len(c) == 1 and bare(e.get("cls")) not in self.prog.records:
                return self.val(c[0], env)        # wrapper of a library: stands for what it wraps
        if k == "opcall" and e["o"] == "=" and len(c) == 2:
            lv = self.lval(c[0], env)
            self.store(lv, self.val(c[1], env))
            return ("lv",) + lv
        if s in ("min", "max") and len(c) == 2:
            a, b = self.val(c[0], env), self.val(c[1], env)
            return b if self.compare("<", *((b, a) if s == "min" else (a, b))) else a
        if s in ("abs", "fabs") and len(c) == 1:
            return ("C", "abs", self.val(c[0], env))
        if s in ("sqrt",) and len(c) == 1:
            return ("C", "sqrt", canon(self.val(c[0], env)))
        if k == "mcall" and not c[1:]:
            o = self.val(c[0], env)
            if isinstance(o, tuple):
                return ("M", s, o)
            if isinstance(o, Obj) and o.name:
                return ("M", s, o.name)
        if k == "opcall" and e["o"] in ("==", "!=", "<", ">", "<=", ">=") and len(c) == 2:
            return self.compare(e["o"], self.val(c[0], env), self.val(c[1], env))
        if k == "call" and all(a == "v" or a == "c" for a in e.get("pm") or []):
            return ("C", short(e.get("n", ""))) + tuple(name(self.val(x, env)) for x in c)
        raise Und("call " + str(e.get("n")))

    def compare(self, o, a, b):
        if all(isinstance(x, tuple) and x and x[0] == "addr" for x in (a, b)) and o in ("==", "!="):
            x, y = ((v[1][v[2]] if isinstance(v[1], dict) else self.load(v[1:])) for v in (a, b))
            if isinstance(x, Obj) and isinstance(y, Obj):
                return (x is y) == (o == "==")
            raise Und("addresses")
        if isinstance(a, Obj) or isinstance(b, Obj):
            a, b = name(a), name(b)
        if isinstance(a, bool) and isinstance(b, bool):
            return {"==": a == b, "!=": a != b}[o]
        x, y = num(a) if isinstance(a, tuple) else None, num(b) if isinstance(b, tuple) else None
        if x is not None and y is not None:
            return {"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[o]
        if self.oracle is not None:
            return self.oracle(o, a, b)
        raise Und("comparison")

    def val(self, e, env):
        k = e["k"]
        c = e.get("c") or []
        if k == "cast":
            return self.val(c[0], env)
        if k == "lit":
            if e.get("lk") == "bool":
                return bool(e.get("v"))
            v = e.get("v", e.get("fv"))
            if v is None:
                v = e.get("s", 0 if e.get("lk") == "zero" else None)
            if v is None:
                raise Und("literal")
            return K(v)
        if "v" in e and k in ("bin", "un", "ref", "sizeof") and isinstance(e["v"], (int, float)):
            return K(e["v"])
        if k == "this":
            return ("addr", {"o": env["this"]}, "o")
        if k in ("ref", "mem", "idx"):
            if k == "ref" and e.get("dk") not in ("local", "param"):
                return ("g", e.get("n") or e.get("gk"))
            v = self.load(self.lval(e, env))
            return ("addr", v, 0) if isinstance(v, Obj) and v.cls == "[]" else v
        if k == "un":
            o = e["o"]
            if o == "*":
                v = self.val(c[0], env)
                if isinstance(v, tuple) and v and v[0] == "addr":
                    if isinstance(v[1], dict):
                        return v[1][v[2]]
                    return self.load(self.at(v, 0))
                raise Und("*")
            if o == "&":
                h, key = self.lval(c[0], env)
                return ("addr", h, key)
            if o == "!":
                return not self.truth(c[0], env)
            if o == "-":
                return ("u", "-", self.val(c[0], env))
            if o == "+":
                return self.val(c[0], env)
            if o in ("++", "--"):
                lv = self.lval(c[0], env)
                old = self.load(lv)
                new = ("b", "+" if o == "++" else "-", old, K(1))
                n = num(new)
                self.store(lv, K(n) if n is not None else new)
                return old if e.get("post") else self.load(lv)
            raise Und(o)
        if k in ("bin", "asgn"):
            o = e["o"]
            if o == "&&":
                return self.truth(c[0], env) and self.truth(c[1], env)
            if o == "||":
                return self.truth(c[0], env) or self.truth(c[1], env)
            if o == ",":
                self.val(c[0], env)
                return self.val(c[1], env)
            if k == "asgn":
                lv = self.lval(c[0], env)
                r = self.val(c[1], env)
                if o != "=":
                    r = self.arith(o[:-1], self.load(lv), r)
                self.store(lv, r)
                return r
            a, b = self.val(c[0], env), self.val(c[1], env)
            if o in ("==", "!=", "<", ">", "<=", ">="):
                return self.compare(o, a, b)
            return self.arith(o, a, b)
        if k == "cond":
            return self.val(c[1] if self.truth(c[0], env) else c[2], env)
        if k in ("call", "mcall", "opcall", "ctor"):
            return self.deref(self.do_call(e, env))
        if k == "init" and len(c) == 1:
            return self.val(c[0], env)
        raise Und(k)

    def arith(self, o, a, b):
        if isinstance(a, tuple) and a and a[0] == "addr":
            n = num(b)
            if o in ("+", "-") and n is not None:
                h, key = self.at(a, n if o == "+" else -n)
                return ("addr", h, key)
            raise Und("pointer arithmetic")
        if isinstance(a, bool):
            a = K(int(a))
        if isinstance(b, bool):
            b = K(int(b))
        if not isinstance(a, tuple) or not isinstance(b, tuple):
            raise Und("arithmetic on objects")
        return ("b", o, a, b)


def name(v):
    if isinstance(v, Obj):
        if v.name is None or v.f and any(True for k, x in v.f.items() if name_changed(v, k, x)):
            raise Und("unnamed object")
        return v.name
    return v


def name_changed(o, k, x):
    n = ("x", o.name, K(k)) if isinstance(k, int) else ("m", o.name, k)
    if isinstance(x, Obj):
        return x.name != n
    return x != n


def canon(t):
    """order-independent form of an arithmetic term"""
    if isinstance(t, tuple) and t and t[0] in ("b", "u", "k"):
        return ("poly", tuple(sorted(poly(t).items(), key=repr)))
    return t
