"""Polynomial value domain: exact multivariate polynomials with integer coefficients (optionally mod p).

Symbols are interned in a table with an integer range [lo, hi] (None = unbounded, a ring element with no order).
"""

class Syms:
    def __init__(self):
        self.names = []
        self.lo = []
        self.hi = []
        self.by = {}
        self.memo = {}

    def new(self, name, lo=None, hi=None):
        if name in self.by:
            return self.by[name]
        i = len(self.names)
        self.names.append(name)
        self.lo.append(lo)
        self.hi.append(hi)
        self.by[name] = i
        return i

SY = Syms()


class Poly:
    __slots__ = ("t", "h")

    def __init__(self, t):
        self.t = t
        self.h = None

    @staticmethod
    def const(c):
        return Poly({(): c}) if c else Poly({})

    @staticmethod
    def sym(name, lo=None, hi=None):
        return Poly({((SY.new(name, lo, hi), 1),): 1})

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), 0)

    def __add__(self, o):
        if o.__class__ is Rat:
            return NotImplemented
        if isinstance(o, int):
            o = Poly.const(o)
        if len(o.t) > len(self.t):
            a, b = o.t, self.t
        else:
            a, b = self.t, o.t
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return Poly(r)
    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        if o.__class__ is Rat:
            return NotImplemented
        if isinstance(o, int):
            o = Poly.const(o)
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) - c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return Poly(r)

    def __rsub__(self, o):
        return (-self) + o

    def scale(self, k):
        return Poly({m: c * k for m, c in self.t.items()}) if k else Poly({})

    def __mul__(self, o):
        if o.__class__ is Rat:
            return NotImplemented
        if isinstance(o, int):
            return self.scale(o)
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mmul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        return Poly(r)
    __rmul__ = __mul__

    def __pow__(self, n):
        r = Poly.const(1)
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def mod(self, p):
        r = {}
        for m, c in self.t.items():
            c %= p
            if c:
                r[m] = c
        return Poly(r)

    def key(self):
        if self.h is None:
            self.h = tuple(sorted(self.t.items()))
        return self.h

    def __eq__(self, o):
        if isinstance(o, int):
            o = Poly.const(o)
        return isinstance(o, Poly) and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.key())

    def is_zero(self):
        return not self.t

    def syms(self):
        return {s for m in self.t for s, _ in m}

    def subst(self, d):
        """d: symbol id -> Poly"""
        if not any(s in d for m in self.t for s, _ in m):
            return self
        out = Poly({})
        for m, c in self.t.items():
            term = Poly.const(c)
            rest = []
            for s, e in m:
                if s in d:
                    term = term * (d[s] ** e)
                else:
                    rest.append((s, e))
            if rest:
                term = term * Poly({tuple(rest): 1})
            out = out + term
        return out

    def lead(self):
        return max(self.t, key=mord)

    def divexact(self, d, p=None):
        """self / d when exact, else None."""
        if d.is_zero():
            return None
        ld = d.lead()
        cd = d.t[ld]
        rem = self
        q = {}
        n = 0
        while rem.t:
            lm = rem.lead()
            m = mdiv(lm, ld)
            if m is None:
                return None
            c = rem.t[lm]
            if p:
                k = c * pow(cd, -1, p) % p
            else:
                if c % cd:
                    return None
                k = c // cd
            q[m] = q.get(m, 0) + k
            rem = rem - d * Poly({m: k})
            if p:
                rem = rem.mod(p)
            n += 1
            if n > 20000:
                return None
        return Poly(q)

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items(), key=lambda x: (mord(x[0])), reverse=True):
            s = "*".join(SY.names[i] + ("^%d" % e if e > 1 else "") for i, e in m)
            if not s:
                out.append(fmtc(c))
            elif c == 1:
                out.append(s)
            elif c == -1:
                out.append("-" + s)
            else:
                out.append("%s*%s" % (fmtc(c), s))
            if len(out) > 14:
                out.append("...")
                break
        return " + ".join(out).replace("+ -", "- ")


def fmtc(c):
    a = abs(c)
    if a > 1 << 20:
        b = a.bit_length() - 1
        if a == 1 << b:
            return ("-" if c < 0 else "") + "2^%d" % b
        if a > 1 << 70:
            return hex(c)
    return str(c)


def mord(m):
    return (sum(e for _, e in m), tuple((-s, e) for s, e in m))


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    i = j = 0
    r = []
    while i < len(a) and j < len(b):
        if a[i][0] == b[j][0]:
            r.append((a[i][0], a[i][1] + b[j][1]))
            i += 1
            j += 1
        elif a[i][0] < b[j][0]:
            r.append(a[i])
            i += 1
        else:
            r.append(b[j])
            j += 1
    r.extend(a[i:])
    r.extend(b[j:])
    return tuple(r)


def mdiv(a, b):
    d = dict(a)
    for s, e in b:
        x = d.get(s, 0) - e
        if x < 0:
            return None
        if x:
            d[s] = x
        else:
            d.pop(s, None)
    return tuple(sorted(d.items()))


def P(x):
    return Poly.const(x) if isinstance(x, int) else x


class Rat:
    """Quotient of two polynomials; the denominators are values the analysed code divided by."""
    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        self.n = P(n)
        self.d = P(1) if d is None else P(d)

    def _w(o):
        return o if isinstance(o, Rat) else Rat(o)

    def __add__(self, o):
        o = Rat._w(o)
        if self.d == o.d:
            return Rat(self.n + o.n, self.d)
        return Rat(self.n * o.d + o.n * self.d, self.d * o.d)
    __radd__ = __add__

    def __neg__(self):
        return Rat(-self.n, self.d)

    def __sub__(self, o):
        return self + (-Rat._w(o))

    def __rsub__(self, o):
        return Rat._w(o) - self

    def __mul__(self, o):
        o = Rat._w(o)
        return Rat(self.n * o.n, self.d * o.d)
    __rmul__ = __mul__

    def __pow__(self, k):
        return Rat(self.n ** k, self.d ** k)

    def inv(self):
        return Rat(self.d, self.n)

    def __truediv__(self, o):
        return self * Rat._w(o).inv()

    def num_eq(self, o):
        o = Rat._w(o)
        return self.n * o.d - o.n * self.d

    def __eq__(self, o):
        if not isinstance(o, (Rat, Poly, int)):
            return False
        return self.num_eq(o).is_zero()

    def __hash__(self):
        return hash((self.n, self.d))

    def __repr__(self):
        if self.d == 1:
            return repr(self.n)
        return "(%r)/(%r)" % (self.n, self.d)
