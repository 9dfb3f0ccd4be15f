"""Abstract domain for fixed-width machine words.

A word is an exact integer polynomial over named unknowns (input words, and the low parts of sums and products that do not fit).  The carry
out of an operation is (p - low)/2^64, so chains of additions telescope and the value of a whole multi-word number is again a small polynomial.
Upper and lower bounds are derived from word ranges, from the total range of each multi-word input and from the facts of the current path."""
import random

M64 = 1 << 64


class Undecided(Exception):
    pass


class Violation(Exception):
    """the abstract execution itself violates a rule (out-of-region access, clobbered register ...)"""


class Fork(Exception):
    def __init__(self, alts):
        self.alts = alts


class V:
    __slots__ = ("p", "lo", "hi", "cong", "_k", "parts")

    def __init__(self, p, lo, hi, cong=None):
        self.p, self.lo, self.hi, self.cong = p, lo, hi, cong
        self._k = None
        self.parts = None

    def const(self):
        return self.lo if self.lo == self.hi else None

    def key(self):
        if self._k is None:
            self._k = frozenset(self.p.items())
        return self._k

    def __repr__(self):
        return "V[%s..%s;%d]" % (hex(self.lo), hex(self.hi), len(self.p))


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        x = r.get(m, 0) + c * k
        if x:
            r[m] = x
        else:
            r.pop(m, None)
    return r


def pscale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


def cadd(a, b, k=1):
    if a is None or b is None:
        return None
    r = dict(a)
    for m, c in b.items():
        x = (r.get(m, 0) + c * k) % M64
        if x:
            r[m] = x
        else:
            r.pop(m, None)
    return r


class Ctx:
    def __init__(self, q, n, depth=2):
        self.q, self.n = q, n
        self.SH = 64 * (depth * n + 6)
        self.one = 1 << self.SH
        self.atoms = []          # (lo, hi, name)
        self.defs = []
        self.blocks = {}         # name -> (atoms, max)
        self.blk_of = {}
        self.memo = {}
        self.hiof = {}
        self.splits = []
        self.gfacts = []
        self.meaning = {}        # block name -> evaluation closure

    # --- construction
    def atom(self, lo, hi, name, d=("in",)):
        self.atoms.append((lo, hi, name))
        self.defs.append(d)
        return len(self.atoms) - 1

    def av(self, a):
        lo, hi, _ = self.atoms[a]
        return V({(a,): self.one}, lo, hi, {(a,): 1})

    def var(self, name, lo=0, hi=M64 - 1):
        return self.av(self.atom(lo, hi, name))

    def block(self, name, n=None, top=None, d=None):
        """a multi-word number with value in [0, top]"""
        n = n or self.n
        top = self.q - 1 if top is None else top
        ats = [self.atom(0, min(M64 - 1, top >> (64 * i)), "%s%d" % (name, i), ("blk", name, i)) for i in range(n)]
        self.blocks[name] = (ats, top)
        for i, a in enumerate(ats):
            self.blk_of[a] = (name, i)
        if d is not None:
            self.meaning[name] = d
        return [self.av(a) for a in ats]

    def c(self, k):
        return V({(): k << self.SH} if k else {}, k, k, {(): k % M64} if k % M64 else {})

    # --- arithmetic
    def add(self, x, y):
        r = V(padd(x.p, y.p), x.lo + y.lo, x.hi + y.hi, cadd(x.cong, y.cong))
        r.parts = x, y
        return r

    def sub(self, x, y):
        return V(padd(x.p, y.p, -1), x.lo - y.hi, x.hi - y.lo, cadd(x.cong, y.cong, -1))

    def scale(self, x, k):
        if k == 0:
            return self.c(0)
        lo, hi = (x.lo * k, x.hi * k) if k > 0 else (x.hi * k, x.lo * k)
        cg = None if x.cong is None else {m: c * k % M64 for m, c in x.cong.items() if c * k % M64}
        return V(pscale(x.p, k), lo, hi, cg)

    def mul(self, x, y):
        k = y.const()
        if k is not None:
            return self.scale(x, k)
        k = x.const()
        if k is not None:
            return self.scale(y, k)
        r = {}
        SH, mask = self.SH, self.one - 1
        for m1, c1 in x.p.items():
            for m2, c2 in y.p.items():
                c = c1 * c2
                if c & mask:
                    raise Undecided("product of two carries")
                m = tuple(sorted(m1 + m2))
                if len(m) > 2:
                    raise Undecided("product of degree 3")
                v = r.get(m, 0) + (c >> SH)
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        cs = [x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi]
        cg = None
        if x.cong is not None and y.cong is not None and len(x.cong) * len(y.cong) <= 8:
            cg = {}
            for m1, c1 in x.cong.items():
                for m2, c2 in y.cong.items():
                    m = tuple(sorted(m1 + m2, key=str))
                    v = (cg.get(m, 0) + c1 * c2) % M64
                    if v:
                        cg[m] = v
                    else:
                        cg.pop(m, None)
        return V(r, min(cs), max(cs), cg)

    # --- bounds
    def arng(self, st, a):
        r = st.rng.get(a)
        return r if r is not None else self.atoms[a][:2]

    def direct(self, st, p):
        """scaled bounds of polynomial p from the ranges of its unknowns, using the block totals"""
        lo = hi = 0
        lin, quad = {}, {}
        for m, c in p.items():
            if not m:
                lo += c
                hi += c
                continue
            if len(m) == 1:
                b = self.blk_of.get(m[0])
                if b is not None and b[0] in self.blocks:
                    lin.setdefault(b[0], {})[b[1]] = c
                    continue
                l, h = self.arng(st, m[0])
                if c > 0:
                    lo += c * l
                    hi += c * h
                else:
                    lo += c * h
                    hi += c * l
                continue
            b0, b1 = self.blk_of.get(m[0]), self.blk_of.get(m[1])
            if b0 is not None and b1 is not None:
                quad.setdefault((b0[0], b1[0]), {})[(b0[1], b1[1])] = c
                continue
            (l0, h0), (l1, h1) = self.arng(st, m[0]), self.arng(st, m[1])
            vs = (l0 * l1, l0 * h1, h0 * l1, h0 * h1)
            l, h = min(vs), max(vs)
            if c > 0:
                lo += c * l
                hi += c * h
            else:
                lo += c * h
                hi += c * l
        for b, cs in lin.items():
            l, h = self.lin(st, b, cs)
            lo += l
            hi += h
        for (b0, b1), cs in quad.items():
            l, h = self.quad(st, b0, b1, cs)
            lo += l
            hi += h
        return lo, hi

    def lin(self, st, b, cs):
        ats, top = self.blocks[b]
        lo = hi = 0
        for i, c in cs.items():
            l, h = self.arng(st, ats[i])
            if c > 0:
                lo += c * l
                hi += c * h
            else:
                lo += c * h
                hi += c * l
        t = cs.get(len(ats) - 1)
        if t is not None and len(ats) > 1 and t & ((1 << 64 * (len(ats) - 1)) - 1) == 0:
            u = t >> 64 * (len(ats) - 1)
            # sum = u*block + rest
            l2, h2 = (0, u * top) if u > 0 else (u * top, 0)
            for i in range(len(ats) - 1):
                c = cs.get(i, 0) - (u << 64 * i)
                if c:
                    l, h = self.arng(st, ats[i])
                    if c > 0:
                        l2 += c * l
                        h2 += c * h
                    else:
                        l2 += c * h
                        h2 += c * l
            lo, hi = max(lo, l2), min(hi, h2)
        return lo, hi

    def quad(self, st, b0, b1, cs):
        a0, t0 = self.blocks[b0]
        a1, t1 = self.blocks[b1]
        rows = {}
        if b0 == b1:
            for (i, j), c in cs.items():
                if i == j:
                    rows.setdefault(i, {})[i] = c
            ok = True
            alpha = {}
            for i in rows:
                c = rows[i][i]
                if c & ((1 << 64 * i) - 1):
                    ok = False
                    break
                alpha[i] = c >> 64 * i
            if ok:
                want = {}
                for i, al in alpha.items():
                    for j in range(len(a0)):
                        k = (min(i, j), max(i, j))
                        want[k] = want.get(k, 0) + (al << 64 * j)
                rest = {k: cs.get(k, 0) - want.get(k, 0) for k in set(cs) | set(want)}
                rest = {k: v for k, v in rest.items() if v}
                if all(v >= 0 for v in alpha.values()):
                    l, h = self.lin(st, b0, alpha)
                    lo, hi = 0, h * t0
                    for (i, j), c in rest.items():
                        mx = self.atoms[a0[i]][1] * self.atoms[a0[j]][1]
                        if c > 0:
                            hi += c * mx
                        else:
                            lo += c * mx
                    d = self.quad_direct(st, a0, a1, cs)
                    return max(lo, d[0]), min(hi, d[1])
            return self.quad_direct(st, a0, a1, cs)
        best = self.quad_direct(st, a0, a1, cs)
        for flip in (False, True):
            rows = {}
            for (i, j), c in cs.items():
                if flip:
                    rows.setdefault(j, {})[i] = c
                else:
                    rows.setdefault(i, {})[j] = c
            bx, by = (b1, b0) if flip else (b0, b1)
            ax, ay = (a1, a0) if flip else (a0, a1)
            tx, ty = (t1, t0) if flip else (t0, t1)
            ny = len(ay)
            alpha, lo, hi = {}, 0, 0
            for i, r in rows.items():
                c0 = r.get(0)
                if c0 is not None and len(r) == ny and all(r[j] == c0 << 64 * j for j in r):
                    alpha[i] = c0
                else:
                    for j, c in r.items():
                        mx = self.arng(st, ax[i])[1] * self.arng(st, ay[j])[1]
                        if c > 0:
                            hi += c * mx
                        else:
                            lo += c * mx
            if alpha:
                pos = {i: c for i, c in alpha.items() if c > 0}
                neg = {i: c for i, c in alpha.items() if c < 0}
                if pos:
                    hi += self.lin(st, bx, pos)[1] * ty
                if neg:
                    lo += self.lin(st, bx, neg)[0] * ty
            best = max(best[0], lo), min(best[1], hi)
        return best

    def quad_direct(self, st, a0, a1, cs):
        lo = hi = 0
        for (i, j), c in cs.items():
            (l0, h0), (l1, h1) = self.arng(st, a0[i]), self.arng(st, a1[j])
            if c > 0:
                lo += c * l0 * l1
                hi += c * h0 * h1
            else:
                lo += c * h0 * h1
                hi += c * l0 * l1
        return lo, hi

    def lead(self, st, p):
        best, bm = -1, None
        for m, c in p.items():
            if m:
                w = abs(c)
                for a in m:
                    w *= max(1, self.atoms[a][1])
                if w > best:
                    best, bm = w, m
        return bm

    def sub_fact(self, p, f, num, den, b):
        """p - (num/den)*f and the constant it contributes, or None"""
        g = {}
        for mm, cc in f.items():
            x, r = divmod(cc * num, den)
            if r:
                return None
            g[mm] = x
        x, r = divmod((b << self.SH) * num, den)
        return padd(p, g, -1), x + (1 if r else 0)

    def ub(self, st, p, depth, used=frozenset()):
        """elimination of leading terms against the facts"""
        best = self.direct(st, p)[1]
        m = self.lead(st, p)
        if depth <= 0 or m is None or self.budget <= 0:
            return best
        pc = p[m]
        for i, (f, lo, hi) in enumerate(self.fl):
            c = f.get(m)
            if not c or i in used:
                continue
            b = hi if (pc > 0) == (c > 0) else lo
            if b is None:
                continue
            r = self.sub_fact(p, f, *((pc, c) if c > 0 else (-pc, -c)), b)
            if r is None:
                continue
            self.budget -= 1
            v = self.ub(st, r[0], depth - 1, used | {i}) + r[1]
            if v < best:
                best = v
        return best

    def descend(self, st, p):
        """coordinate descent over the multipliers of the facts (the bound is convex in them)"""
        k = 0
        best = self.direct(st, p)[1]
        for rnd in range(3):
            better = False
            for f, lo, hi in self.fl:
                rs = set()
                for m, c in f.items():
                    pc = p.get(m)
                    if m and pc is not None:
                        b = hi if (pc > 0) == (c > 0) else lo
                        if b is not None:
                            rs.add(((pc, c) if c > 0 else (-pc, -c)) + (b,))
                if not rs:
                    continue
                rs = sorted(rs, key=lambda t: (abs(t[0]) << 32) // t[1])
                if len(rs) > 6:
                    rs = rs[:2] + rs[len(rs) // 2:len(rs) // 2 + 1] + rs[-3:]
                for num, den, b in rs:
                    r = self.sub_fact(p, f, num, den, b)
                    if r is None:
                        continue
                    v = self.direct(st, r[0])[1] + r[1] + k
                    if v < best:
                        best, pick, better = v, r, True
                        np, nk = r[0], k + r[1]
                if better and best < self.direct(st, p)[1] + k:
                    p, k = np, nk
            if not better:
                break
        return best

    def upper(self, st, p):
        self.budget = 60
        d = self.direct(st, p)[1]
        if not self.fl:
            return d
        return min(self.ub(st, p, self.n + 3), self.descend(st, p))

    def relevant(self, st, p):
        """the facts connected to p, nearest first"""
        at = {a for m in p for a in m}
        rest, seen, out = [], set(), []
        for f in st.facts + self.gfacts:
            k = id(f)
            if k not in seen:
                seen.add(k)
                rest.append((f, {a for m in f[0] for a in m}))
        while rest:
            hit = [x for x in rest if x[1] & at]
            if not hit:
                break
            rest = [x for x in rest if not x[1] & at]
            for f, s in hit:
                out.append(f)
                at |= s
        return out

    def bound(self, st, p):
        """integer bounds of an integer-valued polynomial under the facts of the path"""
        if not st.facts and not self.gfacts:
            lo, hi = self.direct(st, p)
        else:
            self.fl = self.relevant(st, p)
            hi = self.upper(st, p)
            lo = -self.upper(st, pscale(p, -1))
        return -((-lo) >> self.SH), hi >> self.SH

    def tight(self, st, x):
        if x.const() is not None or len(x.p) == 1 and x.lo == 0 and not st.facts and not st.rng:
            return x
        k = (x.key(), len(st.facts), st.fid)
        r = st.bcache.get(k)
        if r is None:
            r = self.bound(st, x.p)
            st.bcache[k] = r
        lo, hi = max(x.lo, r[0]), min(x.hi, r[1])
        if lo > hi:
            raise Infeasible()
        return V(x.p, lo, hi, x.cong)

    def direct_int(self, st, p):
        lo, hi = self.direct(st, p)
        return -((-lo) >> self.SH), hi >> self.SH

    # --- splitting at a bit position
    def split(self, st, x, s=64):
        S = 1 << s
        k = x.const()
        if k is not None:
            return self.c(k % S), self.c(k >> s)
        if x.lo >= 0 and x.hi < S:
            return x, self.c(0)
        if len(x.p) == 1 and x.lo >= 0:
            # 2^u * w, and low parts of low parts
            (m, c), = x.p.items()
            if len(m) == 1 and c > 0 and c & (c - 1) == 0:
                u = c.bit_length() - 1 - self.SH
                if 0 < u < s:
                    l, h = self.split(st, self.av(m[0]), s - u)
                    return self.mark_tz(self.scale(l, 1 << u), u), h
                d = self.defs[m[0]]
                if u == 0 and d[0] == "lo" and s < d[2]:
                    w = V(d[1], *self.direct_int(st, d[1]))
                    w.cong = self.base(w)
                    l, _ = self.split(st, w, s)
                    h = self.sub(x, l)
                    if not any(c & (S - 1) for c in h.p.values()):
                        h = V({m: c >> s for m, c in h.p.items()}, x.lo >> s, x.hi >> s)
                        h.cong = self.base(h)
                        return l, h
        o = self.hiof.get(x.key())
        if o is not None:
            # the high part of a word: split the word itself further up
            w, s0 = o
            if s0 + s < 64:
                l0, _ = self.split(st, w, s0)
                l1, h = self.split(st, w, s0 + s)
                l = self.sub(l1, l0)
                if not any(c & ((1 << s0) - 1) for c in l.p.values()):
                    l = V({m: c >> s0 for m, c in l.p.items()}, 0, S - 1)
                    l.cong = self.base(l)
                    return l, V(h.p, max(h.lo, 0), min(h.hi, x.hi >> s), h.cong)
        lowk = None
        if x.cong is not None and s <= 64:
            rest = [c for m, c in x.cong.items() if m and c % S]
            if not rest:
                lowk = x.cong.get((), 0) % S
        if lowk is not None:
            y = padd(x.p, {(): -(lowk << self.SH)}) if lowk else x.p
            if all(not (c & (S - 1)) for c in y.values()):
                h = V({m: c >> s for m, c in y.items()}, (x.lo - lowk + S - 1) >> s, (x.hi - lowk) >> s)
                h.cong = self.base(h)
                return self.c(lowk), h
        if x.lo >> s != x.hi >> s:
            y = self.tight(st, x)
            if y.lo >> s != y.hi >> s and x.parts is not None:
                # the summands separately: their bounds round to integers
                a, b = [self.tight(st, z) if z.lo != z.hi else z for z in x.parts]
                y = V(y.p, max(y.lo, a.lo + b.lo), min(y.hi, a.hi + b.hi), y.cong)
                if y.lo > y.hi:
                    raise Infeasible()
            x = y
        if x.lo >> s == x.hi >> s:
            k = x.lo >> s
            r = V(padd(x.p, {(): -((k << s) << self.SH)}) if k else x.p, x.lo - (k << s), x.hi - (k << s))
            r.cong = cadd(x.cong, {(): (k << s) % M64}, -1) if x.cong is not None and len(x.cong) <= 6 else self.base(r)
            if r.const() is not None:
                self.settle(st, x.p, x.lo)
                return self.c(r.lo), self.c(k)
            return r, self.c(k)
        k = x.p.get((), 0) >> (s + self.SH)
        if k > 0:
            # the same low part without the multiple of 2^s
            y = V(padd(x.p, {(): -((k << s) << self.SH)}), x.lo - (k << s), x.hi - (k << s), x.cong)
            if s < 64 or x.cong is None:
                y.cong = self.base(y)
            l, h = self.split(st, y, s)
            return l, self.add(h, self.c(k))
        key = ("split", x.key(), s)
        r = self.memo.get(key)
        if r is None:
            a = self.atom(0, S - 1, "w%d" % len(self.atoms), ("lo", x.p, s))
            p = padd(x.p, {(a,): -self.one})
            if any(c & (S - 1) for c in p.values()):
                raise Undecided("precision of carry coefficients exhausted")
            h = {m: c >> s for m, c in p.items()}
            r = (a, h)
            self.memo[key] = r
            if len(x.p) == 1 and 0 <= x.lo and x.hi < M64:
                (m, c), = x.p.items()
                if len(m) == 1 and c == self.one:
                    self.hiof[frozenset(h.items())] = (x, s)
            self.splits.append(r)
        a, h = r
        lo = self.av(a)
        if s == 64 and x.cong is not None and len(x.cong) <= 4:
            lo.cong = x.cong
        hv = V(h, x.lo >> s, x.hi >> s)
        hv.cong = self.base(hv)
        return lo, hv

    def base(self, x):
        """an opaque residue class for a value whose own residue expression is not tracked"""
        if x.const() is not None:
            return self.c(x.lo).cong
        if len(x.p) == 1:
            (m, c), = x.p.items()
            if m and c % self.one == 0:
                return {m: (c >> self.SH) % M64} if (c >> self.SH) % M64 else {}
        if len(x.p) <= 3 and all(c & (self.one - 1) == 0 for c in x.p.values()):
            return {m: (c >> self.SH) % M64 for m, c in x.p.items() if (c >> self.SH) % M64}
        k = ("base", x.key())
        b = self.memo.get(k)
        if b is None:
            b = "b%d" % len(self.memo)
            self.memo[k] = b
        return {(b,): 1}

    # --- bit operations on words of w bits
    def known_tz(self, x):
        z = 64
        if x.cong is not None:
            for m, c in x.cong.items():
                z = min(z, (c & -c).bit_length() - 1)
        else:
            z = 0
        return z

    def band(self, st, x, y, w=64):
        if x.const() is not None:
            x, y = y, x
        k = y.const()
        if k is not None:
            if x.const() is not None:
                return self.c(x.lo & k)
            if k == 0:
                return self.c(0)
            if k == (1 << w) - 1:
                return x
            t = (k & -k).bit_length() - 1
            h = k.bit_length()
            if k == (1 << h) - (1 << t):
                r, _ = self.split(st, x, h)
                if t:
                    l, _ = self.split(st, r, t)
                    r = self.nonneg(self.sub(r, l), 0, (1 << h) - (1 << t))
                    if r.cong is None:
                        r.cong = self.base(r)
                    r = self.mark_tz(r, t)
                return r
        if x.key() == y.key():
            return x
        z, m = self.known_tz(y), x
        if x.hi < 1 << z or y.hi < 1 << self.known_tz(x):
            return self.c(0)
        return self.opaque("and", x, y, 0, min(x.hi, y.hi))

    def mark_tz(self, x, t):
        """x is a multiple of 2^t: express its residue over the quotient"""
        if self.known_tz(x) >= t or any(c & ((1 << t) - 1) for c in x.p.values()):
            return x
        h = V({m: c >> t for m, c in x.p.items()}, x.lo >> t, x.hi >> t)
        b = self.base(h)
        return V(x.p, x.lo, x.hi, {m: c << t for m, c in b.items() if (c << t) % M64})

    def nonneg(self, x, lo, hi):
        return V(x.p, max(lo, x.lo), min(hi, x.hi), x.cong)

    def bor(self, st, x, y, w=64):
        if x.const() is not None:
            x, y = y, x
        k = y.const()
        if k == 0 or x.key() == y.key():
            return x
        if k is not None and x.const() is not None:
            return self.c(x.lo | k)
        if k == (1 << w) - 1:
            return y
        if x.hi < 1 << self.known_tz(y) or y.hi < 1 << self.known_tz(x):
            return self.nonneg(self.add(x, y), 0, (1 << w) - 1)
        b = max(x.hi, y.hi).bit_length()
        r = self.opaque("or", x, y, max(x.lo, y.lo), (1 << b) - 1)
        return r

    def bxor(self, st, x, y, w=64):
        if x.const() is not None:
            x, y = y, x
        k = y.const()
        if k == 0:
            return x
        if k is not None and x.const() is not None:
            return self.c(x.lo ^ k)
        if x.key() == y.key():
            return self.c(0)
        if k == (1 << w) - 1:
            return self.sub(y, x)
        if x.hi < 1 << self.known_tz(y) or y.hi < 1 << self.known_tz(x):
            return self.nonneg(self.add(x, y), 0, (1 << w) - 1)
        b = max(x.hi, y.hi).bit_length()
        return self.opaque("xor", x, y, 0, (1 << b) - 1)

    def opaque(self, op, x, y, lo, hi):
        ks = tuple(sorted((x.key(), y.key()), key=lambda k: str(sorted(k))))
        key = (op,) + ks
        a = self.memo.get(key)
        if a is None:
            a = self.atom(0, hi, "%s%d" % (op, len(self.atoms)), (op, x, y))
            self.memo[key] = a
            e = {(a,): self.one}
            if op in ("or", "xor"):
                self.gfacts.append((padd(padd(e, x.p, -1), y.p, -1), None, 0))
            if op == "or":
                self.gfacts.append((padd(e, x.p, -1), 0, None))
                self.gfacts.append((padd(e, y.p, -1), 0, None))
            if op == "and":
                self.gfacts.append((padd(e, x.p, -1), None, 0))
                self.gfacts.append((padd(e, y.p, -1), None, 0))
        v = self.av(a)
        return V(v.p, lo, hi, v.cong)

    def shl(self, st, x, k, w=64):
        if k == 0:
            return x
        l, _ = self.split(st, x, w - k) if x.hi >= 1 << (w - k) else (x, None)
        return self.mark_tz(self.scale(l, 1 << k), k)

    def shr(self, st, x, k):
        return x if k == 0 else self.split(st, x, k)[1]

    # --- decisions
    def assume(self, st, p, lo=None, hi=None):
        """record lo <= p <= hi on the path; raises Infeasible"""
        p = {m: c for m, c in p.items() if c}
        if len(p) == 1 or (len(p) == 2 and () in p):
            (m, c), = [(m, c) for m, c in p.items() if m] or [((), 0)]
            if len(m) == 1 and c:
                k = p.get((), 0)
                l0, h0 = self.arng(st, m[0])
                l, h = l0, h0
                up, dn = (hi, lo) if c > 0 else (lo, hi)
                # c*a + k between lo and hi
                if dn is not None:
                    l = -((-((dn << self.SH) - k)) // c) if c > 0 else -(((dn << self.SH) - k) // -c)
                if up is not None:
                    h = ((up << self.SH) - k) // c
                l, h = max(l, l0), min(h, h0)
                if l > h:
                    raise Infeasible()
                if (l, h) != (l0, h0):
                    st.rng[m[0]] = (l, h)
                    st.touch()
                    d = self.defs[m[0]]
                    if h == 0 and d[0] == "or":
                        self.assume(st, d[1].p, 0, 0)
                        self.assume(st, d[2].p, 0, 0)
                    if l > 0 and l0 <= 0 and d[0] == "or":
                        t = {}
                        for x in self.leaves(d):
                            t = padd(t, x)
                        st.facts = st.facts + [(t, 1, None)]
                    if h == 0 and d[0] == "xor":
                        self.assume(st, padd(d[1].p, d[2].p, -1), 0, 0)
                return
        r = self.bound(st, p)
        if (lo is not None and r[1] < lo) or (hi is not None and r[0] > hi):
            raise Infeasible()
        st.facts = st.facts + [(p, lo, hi)]
        st.touch()

    def leaves(self, d):
        out = []
        for x in d[1:]:
            e = None
            if len(x.p) == 1:
                (m, c), = x.p.items()
                if len(m) == 1 and c == self.one and self.defs[m[0]][0] == "or":
                    e = self.leaves(self.defs[m[0]])
            out += e if e is not None else [x.p]
        return out

    def settle(self, st, p, k):
        """the path determines the value of p: keep that as a fact"""
        if all(not m for m in p):
            return
        key = (frozenset(p.items()), k)
        if key not in st.known:
            st.known = st.known | {key}
            self.assume(st, p, k, k)

    def decide(self, st, x, what):
        """truth of x<0 / x==0 (x a V); forks when both are possible"""
        x = self.tight(st, x)
        if what == "lt0":
            if x.hi < 0:
                return True
            if x.lo >= 0:
                return False
            raise Fork([lambda s: self.assume(s, x.p, None, -1), lambda s: self.assume(s, x.p, 0, None)])
        if what == "eq0":
            if x.lo > 0 or x.hi < 0:
                return False
            if x.lo == x.hi == 0:
                self.settle(st, x.p, 0)
                return True
            if x.key() in st.ne:
                return False

            def ne(s):
                s.ne = s.ne | {x.key(), frozenset(pscale(x.p, -1).items())}
                if x.lo == 0:
                    self.assume(s, x.p, 1, None)
                elif x.hi == 0:
                    self.assume(s, x.p, None, -1)
                else:
                    s.touch()
            return self._fork([lambda s: self.assume(s, x.p, 0, 0), ne])
        raise KeyError(what)

    def _fork(self, alts):
        raise Fork(alts)

    # --- evaluation of the abstract values at one assignment (used only to confirm a failed obligation)
    def evaluate(self, inputs):
        """inputs: block name -> int and ('a', atom) -> int"""
        env = {}
        bv = {}

        def atom(a):
            if a in env:
                return env[a]
            d = self.defs[a]
            if d[0] == "in":
                v = inputs.get(("a", a))
                if v is None:
                    lo, hi, _ = self.atoms[a]
                    v = random.Random(a * 7919 + inputs.get("seed", 0)).randint(lo, hi)
            elif d[0] == "blk":
                v = blk(d[1]) >> (64 * d[2]) & (M64 - 1)
            elif d[0] == "hi":
                v = poly(d[1]) >> d[2]
            elif d[0] == "unknown":
                raise ArithmeticError("value not modelled")
            elif d[0] == "lo":
                v = poly(d[1]) % (1 << d[2])
            else:
                x, y = poly(d[1].p), poly(d[2].p)
                v = x & y if d[0] == "and" else x | y if d[0] == "or" else x ^ y
            env[a] = v
            return v

        def blk(b):
            if b not in bv:
                f = self.meaning.get(b)
                bv[b] = f(poly) if f is not None else inputs.get(b, 0)
            return bv[b]

        def poly(p):
            t = 0
            for m, c in p.items():
                for a in m:
                    c *= atom(a)
                t += c
            q, r = divmod(t, self.one)
            if r:
                raise ArithmeticError("non-integral value")
            return q
        return poly


class Infeasible(Exception):
    pass


class Facts:
    """path facts shared by the machine states"""

    def __init__(self):
        self.facts = []
        self.rng = {}
        self.ne = frozenset()
        self.known = frozenset()
        self.fid = 0
        self.bcache = {}

    def touch(self):
        self.fid += 1
        self.bcache = {}

    def copy_into(self, o):
        o.facts, o.rng, o.ne, o.known, o.fid, o.bcache = self.facts, dict(self.rng), self.ne, self.known, self.fid, self.bcache
