"""Normal forms of arithmetic terms over the reals: quotients of polynomials, with square
roots as elements whose square is their argument.  Two terms denote the same function
exactly when cross-multiplying their normal forms gives the same polynomial."""
from fractions import Fraction

SIZE = 60000


class Big(Exception):
    pass


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        x = r.get(m, 0) + s * c
        if x:
            r[m] = x
        else:
            r.pop(m, None)
    return r


def mmul(m, n):
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


class Alg:
    """atoms are numbered; rules: atom number -> polynomial its square stands for"""

    def __init__(self):
        self.ids, self.rules, self.terms = {}, {}, []

    def atom(self, t):
        if t not in self.ids:
            self.ids[t] = len(self.terms)
            self.terms.append(t)
        return self.ids[t]

    def pmul(self, a, b):
        if len(a) * len(b) > SIZE:
            raise Big()
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                k = mmul(m, n)
                x = r.get(k, 0) + c * d
                if x:
                    r[k] = x
                else:
                    r.pop(k, None)
        return self.reduce(r)

    def reduce(self, p):
        for _ in range(40):
            hit = None
            for m in p:
                for a, e in m:
                    if e >= 2 and a in self.rules:
                        hit = (m, a)
                        break
                if hit:
                    break
            if not hit:
                return p
            m, a = hit
            c = p[m]
            q = dict(p)
            del q[m]
            rest = tuple((x, e - 2 if x == a else e) for x, e in m if not (x == a and e == 2))
            p = padd(q, self.pmul({rest: c}, self.rules[a]))
        raise Big()

    def rat(self, t):
        if isinstance(t, Rat):
            return t
        if isinstance(t, bool):
            return Rat(self, {(): Fraction(int(t))} if t else {})
        if isinstance(t, (int, float, Fraction)):
            return Rat(self, {(): Fraction(t)} if t else {})
        if t[0] == "k" and isinstance(t[1], (int, float)):
            return self.rat(t[1])
        if t[0] == "b" and t[1] in "+-*/":
            a, b = self.rat(t[2]), self.rat(t[3])
            return a + b if t[1] == "+" else a - b if t[1] == "-" else a * b if t[1] == "*" else a / b
        if t[0] == "u" and t[1] == "-":
            return -self.rat(t[2])
        if t[0] == "C" and t[1] == "sqrt" and len(t) == 3:
            return self.sqrt(self.rat(t[2]))
        if t[0] == "C" and t[1] == "abs" and len(t) == 3:
            r = self.rat(t[2])
            return Rat(self, {((self.atom(("abs", r.key())), 1),): Fraction(1)})
        if t[0] == "poly":
            r = self.rat(0)
            for m, c in t[1]:
                x = self.rat(c)
                for a in m:
                    x = x * self.rat(a)
                r = r + x
            return r
        return Rat(self, {((self.atom(t), 1),): Fraction(1)})

    def sqrt(self, r):
        if r.iszero():
            return r
        a = self.atom(("sqrt", r.key()))
        if a not in self.rules and len(r.d) == 1 and () in r.d:
            self.rules[a] = {m: c / r.d[()] for m, c in r.n.items()}
        elif a not in self.rules:
            # sqrt(n/d): square is n/d; keep as n*d / d^2
            b = self.atom(("sqrt", Rat(self, self.pmul(r.n, r.d)).key()))
            self.rules[b] = self.pmul(r.n, r.d)
            return Rat(self, {((b, 1),): Fraction(1)}, r.d)
        return Rat(self, {((a, 1),): Fraction(1)})


class Rat:
    def __init__(self, A, n, d=None):
        self.A, self.n, self.d = A, n, d if d is not None else {(): Fraction(1)}

    def __add__(self, o, s=1):
        o = self.A.rat(o)
        if self.d == o.d:
            return Rat(self.A, padd(self.n, o.n, s), self.d)
        return Rat(self.A, padd(self.A.pmul(self.n, o.d), self.A.pmul(o.n, self.d), s), self.A.pmul(self.d, o.d))

    __radd__ = __add__

    def __sub__(self, o):
        return self.__add__(o, -1)

    def __rsub__(self, o):
        return self.A.rat(o) - self

    def __neg__(self):
        return Rat(self.A, {m: -c for m, c in self.n.items()}, self.d)

    def __mul__(self, o):
        o = self.A.rat(o)
        return Rat(self.A, self.A.pmul(self.n, o.n), self.A.pmul(self.d, o.d))

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = self.A.rat(o)
        if not o.n:
            raise Big()
        if self.n == o.n and self.d == o.d:
            return self.A.rat(1)
        return Rat(self.A, self.A.pmul(self.n, o.d), self.A.pmul(self.d, o.n))

    def iszero(self):
        return not self.A.reduce(self.n)

    def same(self, o):
        return (self - o).iszero()

    def const(self):
        if not self.n:
            return Fraction(0)
        if set(self.n) == {()} and set(self.d) == {()}:
            return self.n[()] / self.d[()]
        return None

    def key(self):
        """canonical name up to nothing (value-exact when the denominator is constant)"""
        m = min(self.d, key=repr)
        c = self.d[m]
        return (tuple(sorted((m, x / c) for m, x in self.n.items())), tuple(sorted((m, x / c) for m, x in self.d.items())))

    def sign_key(self):
        """(key, sign): same key for quantities that are positive multiples (sign 1) or negative (-1)"""
        if not self.n:
            return None, 0
        m = min(self.n)
        c = self.n[m]
        k = min(self.d)
        d = self.d[k]
        return (tuple(sorted((m, x / c) for m, x in self.n.items())), tuple(sorted((m, x / d) for m, x in self.d.items()))), 1 if (c > 0) == (d > 0) else -1
