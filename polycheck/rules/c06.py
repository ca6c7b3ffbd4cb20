"""Whatever is serialized is deserialized identically: reader and writer of every
type agree on order, types, counts and member by member, and no data member is
left out.

Rule: a token grammar (items with type and place, element loops with their
count, raw bytes with their length) is extracted from the inlined writer and
reader of every Serializer instantiation and compared; the members written are
compared with the members of the type; every use site that unpacks a buffer is
compared with the packing done in the same function."""
from ..ir import AnalysisError, Inliner, const, expr_str, short, strip_casts, walk
from ..flow import ELEM, Flow, bare, deref_local, is_ptrlike, is_ref
from ..effects import loop_info, peq, poly, size_events, size_of_term, term, writes
from .. import mpi
from .c03 import Ctl, loop_conds_cached

ASSUMES = ["sender and receiver have the same architecture (raw bytes are exchanged)"]
PRIM = ("unsigned", "int", "long", "short", "char", "signed", "float", "double", "bool", "uint", "size_t", "__int128")


def is_ser(n, which):
    return n["k"] == "call" and short(n.get("n", "")) == which and "Serializer<" in n.get("n", "")


def tparam(name):
    """T of polytope::Serializer<T>::fooImpl"""
    i = name.index("Serializer<") + len("Serializer<")
    d, j = 1, i
    while d:
        d += {"<": 1, ">": -1}.get(name[j], 0)
        j += 1
    return name[i:j - 1]


def want(target, n):
    # everything of this repository except other serializers
    return not (short(target.name) in ("serializeImpl", "deserializeImpl") and "Serializer<" in target.name)


class Ev:
    def __init__(self, node, kind, T, places, e, extra=None):
        self.node, self.kind, self.T, self.places, self.e, self.extra = node, kind, T, places, e, extra
        self.count = None


def buf_root(p):
    return p[:1]


def events(fl):
    """list of (event) in execution order; kind item/raw/adv; .buf = place of the buffer / iterator"""
    out = []
    for n in fl.cfg.livenodes():
        for e in fl.subexprs(n):
            if is_ser(e, "serializeImpl") and len(e["c"]) == 2:
                ev = Ev(n, "item", tparam(e["n"]), fl.lv(e["c"][0], n), e)
                ev.val, ev.buf, ev.w = e["c"][0], fl.lv(e["c"][1], n), True
                out.append(ev)
            elif is_ser(e, "deserializeImpl") and len(e["c"]) == 3:
                ev = Ev(n, "item", tparam(e["n"]), fl.lv(e["c"][0], n), e)
                ev.val, ev.w = e["c"][0], False
                d = deref_local(e["c"][1])
                ev.buf = itr_id(fl, e["c"][1], n)
                out.append(ev)
        for w in writes(fl, n):
            e = w.e
            if w.kind in ("algo:copy", "algo:memcpy", "algo:memmove", "algo:copy_n"):
                a = e["c"]
                if w.kind == "algo:copy":
                    src, dst = a[0], a[2]
                    nb = diff(fl, a[1], a[0], n)
                elif w.kind == "algo:copy_n":
                    src, dst, nb = a[0], a[2], term(fl, a[1], n)
                else:
                    src, dst, nb = a[1], a[0], term(fl, a[2], n)
                if not is_bytes(dst) and not is_bytes(src):
                    continue
                ev = Ev(n, "raw", None, None, e)
                ev.src, ev.dst, ev.nb = src, dst, nb
                ev.srcp, ev.dstp = fl.pts(src, n), fl.pts(dst, n)
                ev.srcitr = itr_id(fl, src, n)
                out.append(ev)
            elif w.kind == "mut:insert" and len(e["c"]) == 4 and "char" in (e["c"][0].get("t") or "")[:40]:
                ev = Ev(n, "raw", None, None, e)
                ev.src, ev.dst = e["c"][2], e["c"][0]
                ev.nb = diff(fl, e["c"][3], e["c"][2], n)
                ev.srcp, ev.dstp = fl.pts(ev.src, n), frozenset(p + (ELEM,) for p in fl.lv(e["c"][0], n))
                ev.srcitr = itr_id(fl, ev.src, n)
                out.append(ev)
            elif w.kind == "upd" and is_ptrlike((w.target or {}).get("t")) and "char" in (w.target.get("t") or ""):
                ev = Ev(n, "adv", None, None, e)
                ev.buf = itr_id(fl, w.target, n)
                if e["o"] == "+=":
                    ev.nb = term(fl, e["c"][1], n)
                elif e["o"] == "++":
                    ev.nb = ("k", 1)
                else:
                    ev.nb = ("?",)
                out.append(ev)
            elif w.kind == "byref:advance" and "char" in (w.target.get("t") or ""):
                ev = Ev(n, "adv", None, None, e)
                ev.buf = itr_id(fl, w.target, n)
                ev.nb = term(fl, e["c"][1], n)
                out.append(ev)
            elif w.kind == "asgn" and is_ptrlike((w.target or {}).get("t")) and "const char" in (w.target.get("t") or ""):
                r = strip_casts(w.rhs)
                d = diff(fl, w.rhs, w.target, n)
                ev = Ev(n, "adv", None, None, e)
                ev.buf = itr_id(fl, w.target, n)
                ev.nb = d
                if d != ("?",):
                    out.append(ev)
    return out


def whole_local(places):
    if len(places) == 1:
        p = list(places)[0]
        if len(p) == 1 and p[0][0] == "L":
            return p[0][1]
    return None


def is_bytes(e):
    t = bare(e.get("t") or "")
    return "char" in t and "string" not in t


def itr_id(fl, e, n):
    x = strip_casts(e)
    while x["k"] in ("ctor", "cast") and len(x.get("c") or []) == 1:
        x = strip_casts(x["c"][0])
    if x["k"] == "bin" or x["k"] == "opcall" and x["o"] in ("+",):
        return itr_id(fl, x["c"][0], n)
    if x["k"] == "un" and x["o"] in ("&", "*") or x["k"] == "opcall" and x["o"] == "*":
        return itr_id(fl, x["c"][0], n)
    d = deref_local(x)
    if d is None:
        return None
    if is_ref(fl.tname(d)):
        for df in fl.by_local.get(d, []):
            if df.kind == "init":
                r = itr_id(fl, df.e, df.node)
                if r is not None:
                    return r
    return d


def diff(fl, b, a, n):
    """b - a as a term when b is a + something"""
    tb, ta = itr_term(fl, b, n), itr_term(fl, a, n)
    pb, pa = poly(tb), poly(ta)
    r = dict(pb)
    for m, c in pa.items():
        r[m] = r.get(m, 0) - c
    r = {m: c for m, c in r.items() if c}
    if not r:
        return ("k", 0)
    # must not mention the pointer itself
    if any(isinstance(at, tuple) and at[0] in ("itr",) for m in r for at in m):
        return ("?",)
    return ("poly", tuple(sorted(((tuple(map(repr, m)), c) for m, c in r.items()))), r)


def itr_term(fl, e, n):
    x = strip_casts(e)
    while x["k"] == "ctor" and len(x.get("c") or []) == 1:
        x = strip_casts(x["c"][0])
    if x["k"] in ("bin",) or x["k"] == "opcall" and x["o"] in ("+", "-"):
        if len(x["c"]) == 2 and x["o"] in ("+", "-"):
            return ("b", x["o"], itr_term(fl, x["c"][0], n), itr_term(fl, x["c"][1], n))
    if is_ptrlike(x.get("t")):
        d = deref_local(x)
        if d is not None:
            return ("itr", itr_id(fl, x, n))
        return ("itr", repr(term(fl, x, n)))
    return term(fl, x, n)


def nbytes(fl, nb):
    """constant number of bytes, or (count poly, elem)"""
    if nb[0] == "k":
        return nb[1]
    if nb[0] == "poly":
        r = nb[2]
        if set(r) == {()}:
            return r[()]
        return tuple(sorted((repr(m), c) for m, c in r.items()))
    return repr(nb)


def order(fl):
    """reverse post-order position"""
    k = fl._memo.get("rpo")
    if k is None:
        seen, out = set(), []
        def nxt(n):      # leave a loop first, so that its body comes before what follows it
            return iter(sorted((s for s, _ in n.succ), key=lambda x: len(x.loops)))
        st = [(fl.cfg.entry, nxt(fl.cfg.entry))]
        seen.add(fl.cfg.entry.i)
        while st:
            n, it = st[-1]
            for s in it:
                if s.i not in seen:
                    seen.add(s.i)
                    st.append((s, nxt(s)))
                    break
            else:
                out.append(n.i)
                st.pop()
        k = fl._memo["rpo"] = {i: j for j, i in enumerate(reversed(out))}
    return k


def guards(fl, ctl, n, base):
    r = []
    for g, labs in ctl.controllers(n):
        if any(g.i in loop_conds_cached(fl, L) for L in n.loops):
            continue
        r.append(g)
    return r


def rel(p, roots):
    """path relative to the value being (de)serialized"""
    for r in roots:
        if p[:len(r)] == r:
            return p[len(r):]
    return None


class Side:
    """canonical token list of one direction"""

    def __init__(self, res, fl, inl, evs, roots, write, where):
        self.res, self.fl, self.inl, self.evs, self.roots, self.write, self.where = res, fl, inl, evs, roots, write, where
        self.problems = []
        self.tokens = []
        self.ctl = Ctl(fl)
        po = order(fl)
        evs.sort(key=lambda e: (po.get(e.node.i, 0)))
        self.offsets = {}
        if not write:
            self.find_lengths()
        self.tokens = self.build(evs, 0)

    def bad(self, e, msg):
        self.problems.append((self.inl.loc(e), msg))

    def relset(self, places):
        return {rel(p, self.roots) for p in places}

    def find_lengths(self):
        """locals read from the buffer that size containers / bound loops"""
        self.lenlocals = {}
        for ev in self.evs:
            if ev.kind == "item":
                d = whole_local(ev.places)
                if d is not None and self.prim(ev.T):
                    self.lenlocals[d] = ev

    def prim(self, T):
        return T.split()[0] in PRIM or T.startswith(PRIM)

    def build(self, evs, depth):
        out = []
        i = 0
        while i < len(evs):
            ev = evs[i]
            if len(ev.node.loops) > depth:
                L = ev.node.loops[depth]
                j = i
                while j < len(evs) and len(evs[j].node.loops) > depth and evs[j].node.loops[depth] is L:
                    j += 1
                t = self.loop(L, evs[i:j], depth)
                if t is not None:
                    out.append(t)
                i = j
                continue
            t = self.atom(ev)
            if t is not None:
                out.append(t)
            i += 1
        return out

    def guard(self, ev, cnt=None):
        for g in guards(self.fl, self.ctl, ev.node, None):
            t = term(self.fl, g.e, g)
            if not self.redundant(t, ev, g):
                self.bad(g.e, "%s happens only if '%s'" % ("writing" if self.write else "reading", expr_str(g.e)))

    def redundant(self, t, ev, g):
        # size > 0, !empty(), n != 0 around element loops
        if t[0] == "u" and t[1] == "!" and t[2][0] == "M" and t[2][1] == "empty":
            return bool(ev.node.loops) or ev.kind == "raw"
        if t[0] == "b" and t[1] in ("<", "!=", "<=") and (("k", 0) in t or ("k", 1) in t):
            return bool(ev.node.loops) or ev.kind == "raw"
        if t[0] == "v" or t[0] == "M" and t[1] == "size":
            return bool(ev.node.loops) or ev.kind == "raw"
        if t[0] in ("K", "C", "deep"):
            return False
        return False

    def loop(self, L, evs, depth):
        li = loop_info(self.fl, L)
        body = self.build(evs, depth + 1)
        if not body:
            return None
        fl = self.fl
        cont = None
        exprs = None
        if li.container is not None and li.full:
            rs = set()
            for p in li.places:
                r = rel(p, self.roots)
                rs.add(r)
            if len(rs) == 1 and None not in rs:
                cont = rs.pop()
            else:
                cont = self.term_rel(li.container)
        if self.write and cont is None and li.var is not None and li.step == 1 and not li.breaks and li.bound is not None:
            X = size_of_term(li.bound)
            cont = self.term_rel(X) if X is not None else None
            if li.start != ("k", 0) or li.op not in ("<", "!="):
                self.bad(evs[0].e, "element loop does not start at the first element")
        if not self.write:
            cont = self.reader_loop(L, li, evs, body, cont)
        if cont is None:
            self.bad(evs[0].e, "loop '%s' is not over all elements of a member" % expr_str(L.get("c", [None])[0] if False else evs[0].e)[:60])
        return ("rep", cont, tuple(body))

    def flat(self, toks):
        for t in toks:
            if t[0] == "rep":
                yield from self.flat(t[2])
            else:
                yield t

    def first_cont(self, body):
        for t in self.flat(body):
            r = t[2]
            if r is not None and ELEM in r:
                # outermost element step introduced by this loop
                idx = len(r) - 1 - tuple(reversed(r)).index(ELEM)
                return r[:idx]
            if r == ("$elem",):
                return None
        return None

    def len_of_term(self, t, li):
        if t is None:
            return None
        if t[0] == "v" and len(t) > 1 and t[1] in self.lenlocals:
            return t[1]
        X = size_of_term(t)
        if X is not None:
            # loop to container.size(): the container must have been sized from the length
            return None
        for m in poly(t):
            for a in m:
                if a[0] == "v" and a[1] in self.lenlocals:
                    return a[1]
        return None

    def reader_loop(self, L, li, evs, body, cont):
        """the loop reads exactly as many elements as the length read before, into
        the place made for them; returns the container"""
        fl, ev = self.fl, evs[0]
        d, off = None, None
        if cont is not None:
            off = {}                    # every element of the container
        elif li.var is not None and getattr(li, "bound_e", None) is not None:
            b = li.bound
            if b[0] == "M" and b[1] in ("end", "cend") and li.step == 1 and not li.breaks:
                cont = self.term_rel(b[2])
                st = li.start
                off = poly(("k", 0))
                if st is not None and st[0] in ("b", "o") and st[1] == "+":
                    x = [y for y in st[2:4] if not (y[0] == "M" and y[1] in ("begin", "cbegin"))]
                    off = poly(x[0]) if len(x) == 1 else None
                elif st is None or not (st[0] == "M" and st[1] in ("begin", "cbegin")):
                    off = None
            else:
                d = deref_local(strip_casts(li.bound_e))
                if d not in self.lenlocals:
                    d = self.len_of_term(li.bound, li)
                if d is None and size_of_term(li.bound) is not None:
                    cont = self.term_rel(size_of_term(li.bound))
                if d is not None or cont is not None:
                    if li.step != 1 or li.op not in ("<", "!=") or li.breaks:
                        self.bad(ev.e, "element loop does not read every element once")
                    if cont is None:
                        cont = self.first_cont(body)
                    else:
                        off = poly(li.start) if li.start is not None else None
        if d is None and cont is None:
            self.bad(ev.e, "the number of elements read is not the length read from the buffer")
            return cont
        if self.push_elems or cont is None:
            if d is None and cont is not None:
                self.bad(ev.e, "the number of elements read is not the length read from the buffer")
            return cont
        places = frozenset(r + cont for r in self.roots)
        idx = self.offsets.get(cont)
        good = True
        for s in size_events(fl, li.head, places):
            if s is None:
                good = False
                continue
            p = poly(s)
            lead = [m for m in p if len(m) == 1 and m[0][0] == "v" and m[0][1] in self.lenlocals and (d is None or m[0][1] == d)]
            rest = {m: c for m, c in p.items() if m not in lead}
            if len(lead) != 1 or p[lead[0]] != 1:
                good = False
                continue
            for o in (off, idx):
                if o is not None and o != rest:
                    self.bad(ev.e, "the elements read do not go into the places the container was resized for")
            if rest and not (len(rest) == 1 and list(rest.values()) == [1] and len(list(rest)[0]) == 1):
                good = False
        if not good:
            self.bad(ev.e, "the container is not resized to the length read from the buffer before its elements are read")
        return cont

    push_elems = False
    offset = None

    def term_rel(self, t):
        """relative path of a container term"""
        if t is None:
            return None
        path = []
        while t[0] in ("m", "x"):
            if t[0] == "m":
                path.append(t[2])
                t = t[1]
            else:
                path.append(ELEM)
                t = t[1]
        if t[0] == "v":
            for r in self.roots:
                if len(r) == 1 and r[0][1] == t[1]:
                    return tuple(reversed(path))
            for r in self.roots:
                if r[0][1] == t[1]:
                    return rel((r[0],) + tuple(reversed(path)), self.roots)
        return None

    def index_ok(self, ev):
        """element subscripts run with the loop variable from the first element"""
        x = strip_casts(ev.val)
        while x is not None and x["k"] in ("mem", "idx", "opcall", "mcall"):
            if x["k"] == "opcall" and x["o"] == "[]" or x["k"] == "idx" or x["k"] == "mcall" and x.get("mn") == "at":
                it = term(self.fl, x["c"][1], ev.node)
                p = poly(it)
                vs = []
                for L in ev.node.loops:
                    li = loop_info(self.fl, L)
                    if li.var is not None:
                        vs.append(li)
                hit = None
                for li in vs:
                    ms = [m for m in p if len(m) == 1 and m[0][0] == "v" and m[0][1] == li.var]
                    if len(ms) == 1 and p[ms[0]] == 1:
                        hit = (li, {m: c for m, c in p.items() if m not in ms})
                if hit is None:
                    return False
                li, restp = hit
                start = poly(li.start) if li.start else {}
                tot = dict(restp)
                for m, c in start.items():
                    tot[m] = tot.get(m, 0) + c
                tot = {m: c for m, c in tot.items() if c}
                if self.write:
                    if tot:
                        return False
                else:
                    # 0, or the size the container had before (append)
                    cr = self.relset(frozenset(p[:-1] for p in self.fl.lv(x, ev.node) if p and p[-1] == ELEM))
                    for c in cr:
                        self.offsets[c] = tot
                    if tot and not (len(tot) == 1 and list(tot.values()) == [1] and len(list(tot)[0]) == 1 and size_of_term(list(tot)[0][0]) is not None):
                        return False
            x = strip_casts(x["c"][0])
        return True

    def atom(self, ev):
        fl = self.fl
        self.guard(ev)
        if ev.kind == "item":
            rs = self.relset(ev.places)
            rs.discard(None)
            if self.write:
                if len(rs) == 1:
                    if not self.index_ok(ev):
                        self.bad(ev.e, "element index does not run over all elements")
                    return ("item", ev.T, rs.pop())
                t = term(fl, ev.val, ev.node)
                X = size_of_term(t)
                if X is not None:
                    return ("len", ev.T, self.term_rel(X))
                if len({p for p in ev.places}) == 1:
                    p = list(ev.places)[0]
                    return ("item", ev.T, ("?",))
                return ("item", ev.T, None)
            if len(rs) == 1:
                if not self.index_ok(ev):
                    self.bad(ev.e, "element index does not run over all elements")
                return ("item", ev.T, rs.pop())
            d = whole_local(ev.places)
            if d is not None:
                # a local: either a length, or pushed into a container afterwards
                c = self.pushed_into(d, ev)
                if c is not None:
                    self.push_elems = True
                    return ("item", ev.T, c + (ELEM,))
                return ("len", ev.T, self.sizes(d, ev))
            return ("item", ev.T, None)
        if ev.kind == "raw":
            if self.write:
                rs = self.relset(ev.srcp)
                rs.discard(None)
                return ("raw", nbytes(fl, ev.nb), rs.pop() if len(rs) == 1 else None)
            rs = self.relset(ev.dstp)
            rs.discard(None)
            return ("raw", nbytes(fl, ev.nb), rs.pop() if len(rs) == 1 else None)
        if ev.kind == "adv":
            return ("adv", nbytes(fl, ev.nb), None)
        return None

    def pushed_into(self, d, ev):
        fl = self.fl
        for n in fl.cfg.livenodes():
            for w in writes(fl, n):
                if w.kind in ("mut:push_back", "mut:emplace_back") and w.rhs is not None and tuple(map(id, n.loops)) == tuple(map(id, ev.node.loops)):
                    x = strip_casts(w.rhs)
                    while x["k"] in ("ctor", "call") and len(x.get("c") or []) == 1:
                        x = strip_casts(x["c"][0])
                    if deref_local(x) == d:
                        rs = self.relset(w.places)
                        rs.discard(None)
                        if len(rs) == 1 and not guards(fl, self.ctl, n, None):
                            return rs.pop()
        return None

    def sizes(self, d, ev):
        """container that gets its length from local d"""
        fl = self.fl
        for n in fl.cfg.livenodes():
            for w in writes(fl, n):
                if w.kind in ("mut:resize", "mut:assign"):
                    a = w.e["c"][1]
                    p = poly(term(fl, a, n))
                    if any(len(m) == 1 and m[0][0] == "v" and m[0][1] == d and c == 1 for m, c in p.items()):
                        rs = self.relset(w.places)
                        if len(rs) == 1:
                            return rs.pop()
                if w.kind == "asgn" and w.rhs is not None:
                    x = strip_casts(w.rhs)
                    if x["k"] == "ctor" and x["c"] and deref_local(x["c"][0]) == d:
                        rs = self.relset(w.places)
                        if len(rs) == 1:
                            return rs.pop()
                if w.kind in ("mut:push_back", "mut:emplace_back"):
                    for L in n.loops:
                        li = loop_info(fl, L)
                        if li.bound is not None and li.bound[0] == "v" and li.bound[1] == d:
                            rs = self.relset(w.places)
                            if len(rs) == 1:
                                return rs.pop()
        return None


def merge_adv(toks, side):
    """raw + advance by the same number of bytes"""
    out = []
    for t in toks:
        if t[0] == "rep":
            out.append(("rep", t[1], tuple(merge_adv(t[2], side))))
        elif t[0] == "adv":
            if out and out[-1][0] == "raw" and out[-1][1] == t[1] and len(out[-1]) == 3:
                out[-1] = out[-1] + ("adv",)
            else:
                out.append(t)
        else:
            out.append(t)
    return out


def show(t):
    if t[0] == "rep":
        return "for each of %s { %s }" % (pp(t[1]), "; ".join(show(x) for x in t[2]))
    if t[0] == "len":
        return "length of %s as %s" % (pp(t[2]), t[1])
    if t[0] == "raw":
        return "%s bytes of %s%s" % (t[1], pp(t[2]), "" if len(t) == 3 else "")
    if t[0] == "adv":
        return "skip %s bytes" % (t[1],)
    return "%s as %s" % (pp(t[2]), short_t(t[1]))


def short_t(t):
    return t.replace("std::", "").replace(", allocator<int>", "").replace("polytope::", "")[:60]


def pp(p):
    if p is None:
        return "?"
    return "value" + "".join(x if x == ELEM else "." + str(x) for x in p)


def norm(toks):
    r = []
    for t in toks:
        if t[0] == "rep":
            r.append(("rep", t[1], tuple(norm(t[2]))))
        else:
            r.append(t[:3])
    return r


def run(prog, res, tier):
    pairs = {}
    for f in prog.funcs.values():
        if f.short in ("serializeImpl", "deserializeImpl") and "Serializer<" in f.name and f.body is not None:
            pairs.setdefault(tparam(f.name), {})[f.short] = f
    for T in sorted(pairs):
        pr = pairs[T]
        W, R = pr.get("serializeImpl"), pr.get("deserializeImpl")
        if W is None or R is None:
            # instantiated in one direction only by this build
            res.count("one_direction_only")
            continue
        res.count("serialized_types")
        where = "%s:%d" % (W.rel, W.line)
        sides = []
        for f, wr in ((W, True), (R, False)):
            inl = Inliner(prog, want).run(f)
            fl = Flow(inl)
            root = (("A", inl.params[0]["d"]),)
            evs = [e for e in events(fl)]
            if wr:
                evs = [e for e in evs if e.kind == "item" and e.w or e.kind == "raw"]
            else:
                evs = [e for e in evs if e.kind == "item" and not e.w or e.kind in ("raw", "adv")]
            # early returns make later events conditional on being reached: caught by guard()
            s = Side(res, fl, inl, evs, [root], wr, f)
            s.tokens = merge_adv(s.tokens, s)
            sides.append(s)
        sw, sr = sides
        for s in sides:
            for at, msg in s.problems:
                res.bad("unconditional-and-complete", at, T, "%s|%s|%s" % (T, "w" if s.write else "r", msg[:50]), "Serializer<%s>: %s" % (short_t(T), msg))
            if not s.problems:
                res.ok("unconditional-and-complete", where, "%s of %s" % ("writer" if s.write else "reader", short_t(T)))
        # raw bytes must be consumed
        for t in sr.flat(sr.tokens):
            if t[0] == "raw":
                res.check(len(t) == 4, "advance", "%s:%d" % (R.rel, R.line), short_t(T), T, "the reader of %s does not advance by exactly the %s bytes it reads" % (short_t(T), t[1]))
            elif t[0] == "adv":
                res.bad("advance", "%s:%d" % (R.rel, R.line), short_t(T), T, "the reader of %s advances by %s bytes it does not read" % (short_t(T), t[1]))
        a, b = norm(sw.tokens), norm(sr.tokens)
        if not a:
            res.bad("same-format", where, short_t(T), T, "the writer of %s writes nothing" % short_t(T))
            continue
        res.check(a == b, "same-format", where, short_t(T), T,
                  "Serializer<%s> writes { %s } but reads { %s }" % (short_t(T), "; ".join(map(show, a)), "; ".join(map(show, b))))
        # ---- members
        rec = prog.records.get(T)
        tops = set()
        for t in sw.flat(sw.tokens):
            if t[2]:
                tops.add(t[2][0])
        if rec is not None and rec.get("fields") is not None and not T.startswith("std::"):
            for fd in prog.fields(T):
                nm = fd["n"]
                res.check(nm in tops or any(t[2] == () for t in sw.flat(sw.tokens)), "every-member", where, "%s.%s" % (short_t(T), nm), "%s|%s" % (T, nm),
                          "member %s of %s is not serialized" % (nm, short_t(T)))
        elif T.startswith("std::vector"):
            lens = [t for t in a if t[0] == "len" and t[2] == ()]
            reps = [t for t in a if t[0] == "rep" and t[1] == ()]
            res.check(bool(lens) and bool(reps) or any(t[0] == "raw" for t in a), "every-member", where, short_t(T), T, "the elements of %s are not all serialized" % short_t(T))
        else:
            raws = [t for t in a if t[0] == "raw"]
            res.check(bool(raws) and all(t[2] in ((), (ELEM,)) for t in raws), "raw-value", where, short_t(T), T, "the bytes written for %s are not the value" % short_t(T))
            sizes = {"double": 8, "float": 4, "int": 4, "unsigned int": 4, "long": 8, "unsigned long": 8, "char": 1, "short": 2, "bool": 1}
            if T in sizes:
                res.check(all(t[1] == sizes[T] for t in raws), "raw-value", where, short_t(T) + " bytes", T + "|n", "%s bytes are written for a %s" % ([t[1] for t in raws], T))
            else:
                res.bad("raw-value", where, short_t(T), T, "%s is serialized as raw bytes" % short_t(T))
    res.floor("serialized_types", 8)
    use_sites(prog, res)


def use_sites(prog, res):
    names = {"serialize", "deserialize", "serializeImpl", "deserializeImpl"}
    direct = set()
    for f in prog.funcs.values():
        if f.body is None or "Serializer<" in f.name or f.short in names:
            continue
        if any(n["k"] == "call" and short(n.get("n", "")) in names for n in f.nodes()):
            direct.add(f.key)
    small = {k: sum(1 for _ in prog.funcs[k].nodes()) < 400 for k in prog.funcs}
    cg = prog.callgraph()
    called = {c for k in direct for c in cg.get(k, ()) if c in direct and c != k}
    done = set()
    for key in sorted(direct - called) + sorted(direct):
        if key in done:
            continue
        f = prog.funcs[key]
        inl = Inliner(prog, lambda t, n: t.key in direct or small[t.key] and t.short not in names, budget=400000).run(f)
        done |= inl.inlined | {key}
        fl = Flow(inl)
        seqs_w, seqs_r = {}, {}
        po = order(fl)
        evs = []
        for n in fl.cfg.livenodes():
            for e in fl.subexprs(n):
                if e["k"] == "call" and short(e.get("n", "")) in ("serialize", "deserialize", "serializeImpl", "deserializeImpl") and len(e["c"]) >= 2:
                    evs.append((po.get(n.i, 0), n, e))
        # (functions that wrap the calls were inlined)
        for _, n, e in sorted(evs, key=lambda x: x[0]):
            ty = bare_t(e["c"][0].get("t"))
            w = not short(e["n"]).startswith("de")
            if w:
                ps = sorted(fl.lv(e["c"][1], n), key=repr)
                key = ps[0] if ps else None
                base = decl_loops(fl, e["c"][1], n)
            else:
                key = itr_id(fl, e["c"][1], n)
                base = decl_loops(fl, e["c"][1], n)
            fresh(res, fl, inl, f, n, e, e["c"][1] if w else e["c"][0], w)
            seq = (seqs_w if w else seqs_r).setdefault(key, [])
            rep = len(n.loops) > base
            seq.append((ty, rep, n, e))
        if not seqs_r and not seqs_w:
            continue
        W = {tuple((t, r) for t, r, _, _ in s) for s in seqs_w.values()}
        R = {tuple((t, r) for t, r, _, _ in s) for s in seqs_r.values()}
        for k, s in seqs_r.items():
            res.count("unpack_sites")
            sig = tuple((t, r) for t, r, _, _ in s)
            res.check(sig in W, "unpacked-as-packed", inl.loc(s[0][3]), "unpack in %s" % f.full, "%s|%s" % (f.name, sig),
                      "%s unpacks (%s) from a buffer, but packs only %s" % (f.full, sigs(sig), " / ".join("(%s)" % sigs(x) for x in sorted(W)) or "nothing"))
        for k, s in seqs_w.items():
            sig = tuple((t, r) for t, r, _, _ in s)
            res.check(sig in R, "unpacked-as-packed", inl.loc(s[0][3]), "pack in %s" % f.full, "%s|w|%s" % (f.name, sig),
                      "%s packs (%s) into a buffer, but unpacks only %s" % (f.full, sigs(sig), " / ".join("(%s)" % sigs(x) for x in sorted(R)) or "nothing"))
    res.floor("unpack_sites", 3)


def fresh(res, fl, inl, f, n, e, target, w):
    """(de)serialization appends: a target used up in every round of a loop must
    start every round empty"""
    d = whole_local(fl.lv(target, n))
    if d is None:
        return
    decl = [m for m in fl.cfg.livenodes() if m.kind == "var" and m.e.get("d") == d]
    if len(decl) != 1:
        return
    place = (("L", d),)
    for L in n.loops:
        if any(x is L for x in decl[0].loops):
            continue
        li = loop_info(fl, L)
        if li.head is None:
            continue
        used = None
        for m in fl.cfg.livenodes():
            if not any(x is L for x in m.loops):
                continue
            for x in fl.node_exprs(m):
                if uses(fl, x, m, d, e):
                    used = m
        if used is None:
            continue
        # emptied on every path from the loop head to here?
        seen, st, hit = set(), [li.head], False
        while st and not hit:
            m = st.pop()
            if m.i in seen:
                continue
            seen.add(m.i)
            if m is n:
                hit = True
                break
            if any(place in q.places and (q.kind in ("mut:clear", "asgn") or q.kind == "mut:resize" and const(q.e["c"][1]) == 0) for q in writes(fl, m)):
                continue
            st.extend(s for s, _ in m.succ)
        res.check(not hit, "starts-empty", inl.loc(e), "%s in %s" % (fl.vname(d), f.full), "%s|%s" % (f.name, fl.vname(d)),
                  "'%s' still holds what earlier rounds of the loop put there when %s appends to it" % (fl.vname(d), expr_str(e)[:60]))


def uses(fl, x, m, d, ev):
    """is the content (not just the size) of local d read in x"""
    if x is None or x is ev or x["k"] == "inl":
        return False
    if x["k"] == "mcall" and x.get("mn") in ("size", "empty", "clear", "reserve", "capacity") and whole_local(fl.obj(x, m)) == d:
        return False
    if x["k"] == "ref" and x.get("dk") in ("local", "param") and d in {p[0][1] for p in fl.lv(x, m) if len(p) == 1 and p[0][0] == "L"}:
        return True
    from ..ir import kids
    return any(uses(fl, y, m, d, ev) for y in kids(x))


def sigs(s):
    return ", ".join(short_t(t) + ("..." if r else "") for t, r in s)


def bare_t(t):
    return bare(t)


def decl_loops(fl, e, n):
    """number of loops around the declaration of the buffer / iterator"""
    d = deref_local(e)
    for m in fl.cfg.livenodes():
        if d is not None and m.kind == "var" and m.e.get("d") == d:
            return len(m.loops)
    for p in list(fl.lv(e, n)):
        if p[0][0] == "L":
            for df in fl.by_local.get(p[0][1], []):
                if df.kind in ("init", "none"):
                    return len(df.node.loops)
            for m in fl.cfg.livenodes():
                if m.kind == "var" and m.e.get("d") == p[0][1]:
                    return len(m.loops)
    return 0
