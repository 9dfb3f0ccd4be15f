"""Tagged field elements (P18): every operation of the generated library for every tag, operand and aliasing, on the assembly and the portable
back end.  The multi-word routines are replaced by their contracts, which P10 and P11 decide; what remains - dispatch on the tags, conversions,
short arithmetic, bit operations, comparisons, the code that moves words - is interpreted over the word domain."""
import random, time
from limb import *
from asm import Ptr
from fieldlib import *
import field
from field import P, masked, shifted, bitop, bitnot, differ, partitions, SCALARS
from report import parallel

SHORT, SHORTM, LONG, LONGM = 0, 0x40000000, 0x80000000, 0xC0000000
S31 = 1 << 31
RAW = {"rawAdd": "raa", "rawSub": "raa", "rawNeg": "ra", "rawMMul": "raa", "rawMSquare": "ra", "rawMMul1": "ra6", "rawToMontgomery": "ra", "rawFromMontgomery": "ra",
       "rawAddLS": "rap", "rawSubLS": "rap", "rawSubSL": "rpa", "rawNegLS": "ran"}
RAWP = ("rawCopy", "rawZero", "rawSwap", "rawIsEq", "rawIsZero", "rawCmp", "rawAnd", "rawOr", "rawXor", "rawNot", "rawShl", "rawShr", "rawCopyS2L", "rawSubRegular")


def radd(a, b, k, q):
    r = dict(a)
    for m, c in b.items():
        x = (r.get(m, 0) + c * k) % q
        if x:
            r[m] = x
        else:
            r.pop(m, None)
    return r


def rmul(a, b, q):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = tuple(sorted(m1 + m2))
            x = (r.get(m, 0) + c1 * c2) % q
            if x:
                r[m] = x
            else:
                r.pop(m, None)
    return r


class Sem:
    """what the word blocks of one call stand for: residues are polynomials mod q over the operands"""

    def __init__(self, c):
        self.c, self.ctx, self.q, self.n = c, c.ctx, c.q, c.n
        self.R = c.be.ren.R
        self.blk = {}           # block name -> residue
        self.sym = {}           # symbol -> value polynomial of its canonical representative, or of the signed scalar
        self.words = {}         # residue key -> words
        self.exact_neg = False
        self.scal = {}          # atom -> symbol
        self.inv = pow(self.ctx.one, -1, self.q) if self.q > 1 else 0

    def number(self, nm):
        """a full-range operand"""
        ws = self.ctx.block(nm)
        self.blk[nm] = {(nm,): 1}
        self.sym[nm] = value(ws)
        self.words[frozenset(self.blk[nm].items())] = ws
        return self.blk[nm]

    def scalar(self, nm, lo, hi):
        v = self.ctx.var(nm, lo, hi)
        (m, _), = v.p.items()
        self.scal[m[0]] = nm
        self.sym[nm] = v.p
        r = {(nm,): 1}
        if hi < self.q and lo >= 0:
            self.words[frozenset(r.items())] = [v] + [self.ctx.c(0)] * (self.n - 1)
        return v, r

    def ev(self, ev, res):
        t = 0
        for m, c in res.items():
            for s in m:
                c = c * ev(self.sym[s])
            t += c
        return t % self.q

    def canon(self, st, res):
        """words of the representative in [0, q)"""
        k = frozenset(res.items())
        ws = self.words.get(k)
        if ws is None:
            if all(not m for m in res):
                ws = [self.ctx.c(x) for x in words_of(res.get((), 0), self.n)]
            elif len(res) == 1 and next(iter(res.values())) == 1 and len(next(iter(res))) == 1 and next(iter(res))[0] in self.scal.values() and \
                    self.ctx.direct_int(st, self.sym[next(iter(res))[0]])[1] < 0 and self.q > S31:
                v = V(self.sym[next(iter(res))[0]], -S31, -1)
                ws = self.chain(st, padd(v.p, {(): self.q << self.ctx.SH}), v)
            else:
                nm = "Z%d" % len(self.blk)
                ws = self.ctx.block(nm, d=lambda poly, r=res: self.ev(poly, r))
                self.blk[nm] = dict(res)
            self.words[k] = ws
        return ws

    def chain(self, st, p, low):
        """words of q + low"""
        ws, cy = [], low
        for i, k in enumerate(words_of(self.q, self.n)):
            l, cy = self.ctx.split(st, self.ctx.add(self.ctx.c(k), cy), 64)
            ws.append(l)
        return ws

    def bits(self, p):
        """words of p mod q for an integer form p that is no residue of the operands (bit operations)"""
        k = ("bits", frozenset(p.items()))
        ws = self.words.get(k)
        if ws is None:
            nm = "Z%d" % len(self.blk)
            ws = self.ctx.block(nm, d=lambda poly: poly(p) % self.q)
            self.blk[nm] = {(nm,): 1}
            self.sym[nm] = value(ws)
            self.words[k] = ws
            self.words[frozenset(self.blk[nm].items())] = ws
        return ws

    def residue(self, st, p):
        """residue of an integer form"""
        p = close(self.ctx, st, p)
        q, out, lin, rest = self.q, {}, {}, {}
        for m, c in p.items():
            if not m:
                out = radd(out, {(): 1}, c * self.inv, q)
            elif len(m) == 1 and m[0] in self.ctx.blk_of:
                b = self.ctx.blk_of[m[0]]
                lin.setdefault(b[0], {})[b[1]] = c * self.inv % q
            elif all(a in self.scal for a in m):
                out = radd(out, {tuple(sorted(self.scal[a] for a in m)): 1}, c * self.inv, q)
            else:
                rest[m] = c
        for b, cs in lin.items():
            c0 = cs.get(0, 0)
            if b in self.blk and all(cs.get(i, 0) == c0 * pow(2, 64 * i, q) % q for i in range(self.n)):
                out = radd(out, self.blk[b], c0, q)
            else:
                for m, c in p.items():
                    if len(m) == 1 and self.ctx.blk_of.get(m[0], (None,))[0] == b:
                        rest[m] = c
        if rest:
            nm = "p%d" % len(self.sym)
            k = ("p", frozenset(rest.items()))
            if k in self.ctx.memo:
                nm = self.ctx.memo[k]
            else:
                self.ctx.memo[k] = nm
                self.sym[nm] = rest
            # the part may not be an integer by itself: it is one symbol of value rest * 2^SH / 2^SH
            out = radd(out, {(nm,): 1}, 1, q)
        return out

    def read(self, st, eng, p, n=None):
        return [eng.mem.load(st, Ptr(p.r, p.o + 8 * i)) for i in range(n or self.n)]

    def operand(self, st, eng, p):
        ws = self.read(st, eng, p)
        v = value(ws)
        if not reduced(self.ctx, st, ws, self.q):
            raise Undecided("operand of a multi-word routine not known to be reduced")
        return self.residue(st, v)

    def write(self, st, eng, p, ws):
        for i, w in enumerate(ws):
            eng.mem.store(st, Ptr(p.r, p.o + 8 * i), w)

    def scalar_arg(self, st, v, lo, hi):
        if not isinstance(v, V):
            raise Undecided("scalar argument")
        v = self.ctx.tight(st, v)
        if v.lo < lo or v.hi > hi:
            raise Undecided("scalar argument outside the range the routine is proved for")
        return self.residue(st, v.p)

    def raw(self, st, eng, op, a):
        """contract of one multi-word routine; returns its value"""
        q, C = self.q, self.ctx
        iR = pow(self.R, -1, q)
        X = lambda i: self.operand(st, eng, a[i])
        put = lambda r: self.write(st, eng, a[0], self.canon(st, r))
        if op in RAW:
            sig = RAW[op]
            S = {i: self.scalar_arg(st, a[i], *field.SCAL[ch]) for i, ch in enumerate(sig) if ch in field.SCAL}
            if op == "rawAdd":
                put(radd(X(1), X(2), 1, q))
            elif op == "rawSub":
                put(radd(X(1), X(2), -1, q))
            elif op == "rawNeg":
                x = X(1)
                if self.exact_neg:
                    # q - x as integers, or 0
                    xs = self.read(st, eng, a[1])
                    if self.is_zero(st, xs, None):
                        self.write(st, eng, a[0], [C.c(0)] * self.n)
                        return C.c(0)
                    ws = self.canon(st, radd({}, x, -1, q))
                    C.assume(st, padd(value(ws), value(xs)), q, q)
                    self.write(st, eng, a[0], ws)
                    return C.c(0)
                put(radd({}, x, -1, q))
            elif op == "rawMMul":
                put(radd({}, rmul(X(1), X(2), q), iR, q))
            elif op == "rawMSquare":
                x = X(1)
                put(radd({}, rmul(x, x, q), iR, q))
            elif op == "rawMMul1":
                put(radd({}, rmul(X(1), S[2], q), iR, q))
            elif op == "rawToMontgomery":
                put(radd({}, X(1), self.R, q))
            elif op == "rawFromMontgomery":
                put(radd({}, X(1), iR, q))
            elif op == "rawAddLS":
                put(radd(X(1), S[2], 1, q))
            elif op == "rawSubLS":
                put(radd(X(1), S[2], -1, q))
            elif op == "rawSubSL":
                put(radd(S[1], X(2), -1, q))
            elif op == "rawNegLS":
                put(radd(radd({}, X(1), -1, q), S[2], -1, q))
            return C.c(0)
        W = lambda i: self.read(st, eng, a[i])
        if op == "rawCopy":
            self.write(st, eng, a[0], W(1))
        elif op == "rawZero":
            self.write(st, eng, a[0], [C.c(0)] * self.n)
        elif op == "rawSwap":
            x, y = W(0), W(1)
            self.write(st, eng, a[0], y)
            self.write(st, eng, a[1], x)
        elif op == "rawIsZero":
            return C.c(1 if self.is_zero(st, W(0), None) else 0)
        elif op == "rawIsEq":
            return C.c(1 if self.is_zero(st, W(0), W(1)) else 0)
        elif op == "rawCmp":
            d = padd(value(W(0)), value(W(1)), -1)
            big = 1 << (64 * self.n)
            if C.decide(st, V(d, -big, big), "lt0"):
                return C.c((1 << 32) - 1)
            return C.c(0 if C.decide(st, V(d, -big, big), "eq0") else 1)
        elif op in ("rawAnd", "rawOr", "rawXor"):
            p, _ = bitop(op[3:].lower())(self.c, st, [W(1), W(2)], [])
            self.write(st, eng, a[0], self.bits(p))
        elif op == "rawNot":
            p, _ = bitnot(self.c, st, [W(1)], [])
            self.write(st, eng, a[0], self.bits(p))
        elif op in ("rawShl", "rawShr"):
            k = a[2].const()
            if k is None or k >= self.c.be.ren.bits:
                raise Undecided("shift count")
            ws = shifted(self.c, st, W(1), k, op == "rawShl")
            self.write(st, eng, a[0], self.bits(value(ws)) if op == "rawShl" else ws)
        elif op == "rawCopyS2L":
            v = a[1]
            if not isinstance(v, V):
                raise Undecided("scalar argument")
            if v.hi >= 1 << 63 and not C.decide(st, V(padd(v.p, {(): -((1 << 63) << C.SH)}), v.lo - (1 << 63), v.hi - (1 << 63)), "lt0"):
                v = C.add(v, C.c(-M64))
            if C.decide(st, v, "lt0"):
                if v.lo < -self.q:
                    raise Undecided("scalar below the modulus")
                ws = self.chain(st, None, v)
            else:
                ws = [v] + [C.c(0)] * (self.n - 1)
            self.write(st, eng, a[0], ws)
        elif op == "rawSubRegular":
            x, y, ws, cy = W(1), W(2), [], C.c(0)
            for i in range(self.n):
                l, cy = C.split(st, C.add(C.sub(x[i], y[i]), cy), 64)
                ws.append(l)
            self.write(st, eng, a[0], ws)
        return C.c(0)

    def is_zero(self, st, x, y):
        d = value(x)
        if y is not None:
            d = padd(d, value(y), -1)
        big = 1 << (64 * self.n)
        return self.ctx.decide(st, V(close(self.ctx, st, d), -big, big), "eq0")


# ------------------------------------------------------------------ the back ends
KEEP = {}


def preserved(be, label, sig):
    """general registers a multi-word routine leaves alone"""
    k = (id(be), label)
    if k not in KEEP:
        c = field.setup(be, label, sig, tuple(range(sum(ch in "ra" for ch in sig))))
        st0 = be.start(c)
        r0 = dict(st0.reg)
        for k2, v in c.init.items():
            st0.mem[k2] = dict(v)
        same = set(r0)
        for st in c.eng.run(st0):
            for r in list(same):
                x, y = st.reg.get(r), r0[r]
                if not (x is y or isinstance(x, Ptr) and x == y or isinstance(x, V) and isinstance(y, V) and x.key() == y.key()):
                    same.discard(r)
        KEEP[k] = same
    return KEEP[k]


class XBack(BX86):
    def start(self, c):
        sem, eng = c.sem, c.eng
        N = self.ren.name
        for op, sig in RAW.items():
            for label in (N + "_" + op, op):
                if not self.has(label) or self.P.labels[label] == self.P.labels[c.fname]:
                    continue
                keep = preserved(BX86(self.ren) if False else self.plain, label, sig)

                def h(e, s, op=op, sig=sig, keep=keep):
                    sem.raw(s, e, op, [s.reg[r] for r in ("rdi", "rsi", "rdx")[:len(sig)]])
                    for r in list(s.reg):
                        if r not in keep and r not in ("rsp",):
                            s.reg[r] = e.ctx.var("clob_" + r)
                    return True
                eng.hook(label, h)
                break
        return BX86.start(self, c)

    @property
    def plain(self):
        if not hasattr(self, "_plain"):
            self._plain = BX86(self.ren)
        return self._plain


class CBack(BCpp):
    file = "_generic.cpp"

    def __init__(self, ren):
        BCpp.__init__(self, ren, ("_generic.cpp",))

    def engine(self, c):
        eng = BCpp.engine(self, c)
        N = self.ren.name + "_"

        def h(e, s, base, args, ins):
            if not base.startswith(N):
                return None
            op = base[len(N):]
            if op in RAW or op in RAWP:
                return c.sem.raw(s, e, op, args)
            if op in ("longErr", "fail"):
                s.events.append(("call", base))
                return True
        eng.hooks.append(h)
        return eng


BACK = [XBack, CBack]


# ------------------------------------------------------------------ operands
def make(c, sem, nm, kind):
    """element cells, residue of its value, words representing it by factor"""
    C = c.ctx
    n = c.n
    stale = lambda x: C.var("stale_%s%s" % (nm, x))
    short = C.var("stale_%ss" % nm, 0, (1 << 32) - 1)
    t = {"S": SHORT, "M": SHORTM, "L": LONG, "G": LONGM}[kind[0]]
    # the words of a short element are left over from anything before
    if kind[0] in "SM":
        if kind[1:] in "+-":
            v, res = sem.scalar("s" + nm, *((0, S31 - 1) if kind[1] == "+" else (-S31, -1)))
            c.S.append(v)
        else:
            k = int(kind[1:])
            v, res = C.c(k), ({(): k % c.q} if k % c.q else {})
        short = v if v.lo >= 0 else V(padd(v.p, {(): (1 << 32) << C.SH}), v.lo + (1 << 32), v.hi + (1 << 32), cadd(v.cong, {(): 1 << 32}))
        ws = [stale(i) for i in range(n)] if kind[0] == "S" else None
    else:
        if kind[1:]:
            k = int(kind[1:]) % c.q
            res = {(): k} if k else {}
        else:
            res = sem.number(nm)
            c.names.append(nm)
        ws = None
    if ws is None:
        ws = sem.canon(None_state, radd({}, res, sem.R if kind[0] in "MG" else 1, c.q)) if not (kind[0] == "L") else sem.canon(None_state, res)
    cells = {0: ("d", short, C.c(t))}
    for i, w in enumerate(ws):
        cells[8 + 8 * i] = ("q", w)
    return cells, res, ws


class _St(Facts):
    pass


None_state = _St()


def signed(q, v):
    return v if v <= (q - 1) // 2 else v - q


class Op:
    def __init__(self, name, nargs, spec, tags=None, ret=False):
        self.name, self.nargs, self.spec, self.tags, self.ret = name, nargs, spec, tags, ret


def r_add(sem, X):
    return radd(X[0], X[1], 1, sem.q)


def r_sub(sem, X):
    return radd(X[0], X[1], -1, sem.q)


OPS = {
    "add": (2, "res", r_add), "sub": (2, "res", r_sub), "mul": (2, "res", lambda sem, X: rmul(X[0], X[1], sem.q)),
    "neg": (1, "res", lambda sem, X: radd({}, X[0], -1, sem.q)), "square": (1, "res", lambda sem, X: rmul(X[0], X[0], sem.q)),
    "toNormal": (1, "res", lambda sem, X: X[0]), "toLongNormal": (1, "res", lambda sem, X: X[0]), "toMontgomery": (1, "res", lambda sem, X: X[0]), "copy": (1, "res", lambda sem, X: X[0]),
    "band": (2, "bit", "and"), "bor": (2, "bit", "or"), "bxor": (2, "bit", "xor"), "bnot": (1, "bit", "not"),
    "shl": (2, "shift", True), "shr": (2, "shift", False),
    "eq": (2, "cmp", lambda a, b: a == b), "neq": (2, "cmp", lambda a, b: a != b), "lt": (2, "cmp", lambda a, b: a < b), "gt": (2, "cmp", lambda a, b: a > b),
    "leq": (2, "cmp", lambda a, b: a <= b), "geq": (2, "cmp", lambda a, b: a >= b),
    "land": (2, "bool", lambda a, b: a and b), "lor": (2, "bool", lambda a, b: a or b), "lnot": (1, "bool", lambda a: not a),
    "isTrue": (1, "true", None), "toInt": (1, "int", None),
}
TAGS = {"toNormal": (SHORT, SHORTM, LONG), "toLongNormal": (LONG,), "toMontgomery": (SHORTM, LONGM)}
KINDS = ["S+", "S-", "M+", "M-", "L", "G"]


def shift_kinds(ren, tier):
    b, q = ren.bits, ren.q
    if tier == "thorough":
        ks = {0, 1, 2, 31, 32, 33, b - 2, b - 1, b, b + 1, 255, 256, S31 - 1} | {64 * i + d for i in range(1, ren.n) for d in (-1, 0, 1)}
        if ren.n <= 4:
            ks |= set(range(min(b, 200) + 2))
    else:
        ks = {0, 1, 31, 32, 63, 64, 65, b - 2, b - 1, b, b + 1, S31 - 1}
    out = []
    for k in sorted(ks):
        if k < S31:
            out += ["S%d" % k, "M%d" % k, "L%d" % k, "G%d" % k]
        if k and k <= S31:
            out += ["S%d" % -k, "M%d" % -k, "L%d" % -k, "G%d" % -k]
    return out + ["S%d" % -S31]


def reduced(ctx, st, ws, q):
    """the words denote a number in [0, q)"""
    v = value(ws)
    if in_range(ctx, st, v, 0, q - 1):
        return True
    s = st.clone()
    try:
        for w in ws:        # what is known of each word need not show in the bounds of its terms
            if len(w.p) > 1:
                ctx.assume(s, w.p, w.lo, w.hi)
    except Infeasible:
        return True
    return in_range(ctx, s, v, 0, q - 1)


class Elem(field.Runner):
    def call(self, be, op, kinds, part, key):
        nargs, cls, spec = OPS[op]
        c = Call(be, be.ren.name + "_" + op)
        c.S, c.names, c.free = [], [], []
        c.sem = sem = Sem(c)
        sem.exact_neg = cls == "int"
        rets = cls in ("true", "int")
        made = {}
        X, W = [], []
        ptr = {}
        args = []
        slots = ([] if rets else ["r"]) + list("ab")[:nargs]
        for i, nm in enumerate(slots):
            g = part[i]
            if nm != "r" and g not in made:
                made[g] = make(c, sem, "ABC"[g], kinds[g])
        for i, nm in enumerate(slots):
            g = part[i]
            if g not in ptr:
                ptr[g] = c.region("e%d" % g, made[g][0] if g in made else None, 8 + 8 * c.n, write=not rets and part[0] == g)
            args.append(ptr[g])
        c.args = args
        for nm, g in zip(slots, part):
            if nm != "r":
                X.append(made[g][1])
                W.append(made[g][2])
        c.X, c.W = X, W
        c.rp = None if rets else ptr[part[0]]
        c.result = None
        getattr(self, "k_" + cls)(c, op, spec, key)

    # --- results
    def tag(self, c, st):
        t = c.mem.load(st, Ptr(c.rp.r, 4), 4)
        k = t.const() if isinstance(t, V) else None
        if k is None:
            raise Undecided("the tag of the result is not a number")
        return k

    def rwords(self, c, st):
        return [c.mem.load(st, Ptr(c.rp.r, 8 + 8 * i)) for i in range(c.n)]

    def rshort(self, c, st):
        return c.mem.load(st, Ptr(c.rp.r, 0), 4)

    def short_cases(self, c, st):
        """(path, signed form) for the short value"""
        v = self.rshort(c, st)
        if not isinstance(v, V):
            raise Undecided("short value")
        v = c.ctx.tight(st, v)
        out = []
        for lo, hi, off in ((0, S31 - 1, 0), (S31, (1 << 32) - 1, 1 << 32)):
            if v.hi < lo or v.lo > hi:
                continue
            s = st
            if not (lo <= v.lo and v.hi <= hi):
                s = st.clone()
                try:
                    c.ctx.assume(s, v.p, lo, hi)
                except Infeasible:
                    continue
            out.append((s, padd(v.p, {(): -(off << c.ctx.SH)}) if off else v.p))
        return out

    def means(self, c, st, p, want):
        """integer form p denotes the specified residue on this path"""
        sem = c.sem
        if isinstance(want, tuple):             # an integer form
            w = want[0]
            if cong_zero(c.ctx, st, padd(p, w, -1), c.q):
                return True
            return cong_zero(c.ctx, st, padd(p, value(sem.bits(w)), -1), c.q)
        got = sem.residue(st, p)
        if got == want or self.pinned(c, st, got) == self.pinned(c, st, want):
            return True
        return cong_zero(c.ctx, st, padd(p, value(sem.canon(st, want)), -1), c.q)

    def pinned(self, c, st, res):
        """residue with the scalars this path fixes to one value put in"""
        sem, out = c.sem, {}
        fix = {}
        for a, nm in sem.scal.items():
            lo, hi = c.ctx.bound(st, c.ctx.av(a).p)
            if lo == hi:
                fix[nm] = lo
        if not fix:
            return res
        for m, k in res.items():
            for s in m:
                k = k * fix.get(s, 1)
            out = radd(out, {tuple(s for s in m if s not in fix): 1}, k, c.q)
        return out

    def times(self, c, want, k):
        return radd({}, want, k, c.q)

    def holds(self, c, st, want, tags):
        t = self.tag(c, st)
        if t not in (tags or (SHORT, SHORTM, LONG, LONGM)):
            return False
        if t in (LONG, LONGM, SHORTM):
            ws = self.rwords(c, st)
            v = value(ws)
            if not reduced(c.ctx, st, ws, c.q):
                return False
            if t == LONG:
                return self.means(c, st, v, want)
            if isinstance(want, tuple):
                return False
            if not self.means(c, st, v, self.times(c, want, c.sem.R)):
                return False
            if t == LONGM:
                return True
        return all(self.means(c, s, p, want) for s, p in self.short_cases(c, st))

    def wrong(self, c, ev, st, want, tags):
        """text of a definite mismatch at one assignment"""
        t = ev(c.mem.load(st, Ptr(c.rp.r, 4), 4).p)
        w = ev(want[0]) % c.q if isinstance(want, tuple) else c.sem.ev(ev, want)
        if t not in (SHORT, SHORTM, LONG, LONGM):
            return "the result has the tag %#x" % t
        if tags and t not in tags:
            return "the result has the tag %#x" % t
        bad = []
        if t != SHORT:
            x = sum(ev(v.p) << (64 * i) for i, v in enumerate(self.rwords(c, st)))
            f = 1 if t == LONG else c.sem.R
            if x >= c.q:
                bad.append("words %#x are not below the modulus" % x)
            elif x != w * f % c.q:
                bad.append("words %#x instead of %#x" % (x, w * f % c.q))
        if t in (SHORT, SHORTM):
            s = ev(self.rshort(c, st).p)
            s = s - (1 << 32) if s >> 31 else s
            if s % c.q != w:
                bad.append("short value %d instead of the residue %#x" % (s, w))
        return "; ".join(bad) and "tag %#x: %s" % (t, "; ".join(bad))

    def operands(self, c, ev):
        return ", ".join("%s=%#x" % ("ab"[i], c.sem.ev(ev, x)) for i, x in enumerate(c.X))

    def decide(self, c, key, want, tags):
        def witness(ev, st):
            w = self.wrong(c, ev, st, want, tags)
            return w and "%s (%s)" % (w, self.operands(c, ev))
        self.go(c, key, "value", lambda st: self.holds(c, st, want, tags), witness)

    def k_res(self, c, op, spec, key):
        self.decide(c, key, spec(c.sem, c.X), TAGS.get(op))

    def k_bit(self, c, op, spec, key):
        E = [c.sem.canon(None_state, x) for x in c.X]
        p, _ = (bitnot if spec == "not" else bitop(spec))(c, None_state, E, [])
        self.decide(c, key, (p,), (SHORT, LONG))

    def k_shift(self, c, op, left, key):
        (k,) = [c.X[1].get((), 0)]
        b = c.be.ren.bits
        if k > c.q // 2:
            k, left = c.q - k, not left
        if k >= b:
            p = {}
        else:
            p = value(shifted(c, None_state, c.sem.canon(None_state, c.X[0]), k, left))
        self.decide(c, key, (p,), (SHORT, LONG))

    # --- truth values
    def forms(self, c, x):
        """words that vanish exactly when the operand does"""
        return [c.sem.canon(None_state, radd({}, x, k, c.q)) for k in (1, c.sem.R)]

    def num(self, c, st):
        if c.rp is None:
            v = c.ret(st)
            if not isinstance(v, V):
                raise Undecided("the result is not a number")
            v = c.ctx.split(st, v, 32)[0] if v.lo < 0 or v.hi >= 1 << 32 else v
            return v
        if self.tag(c, st) != SHORT:
            raise Undecided("tag of a truth value")
        return self.rshort(c, st)

    def equal(self, c, st, X, yes):
        """the path implies that the two residues are equal / different"""
        F = [self.forms(c, x) for x in X]
        for i in range(2):
            ws = [f[i] for f in F] + ([None] if len(F) == 1 else [])
            d = value(ws[0])
            if ws[1] is not None:
                d = padd(d, value(ws[1]), -1)
            if yes:
                if cong_zero(c.ctx, st, d, 0):
                    return True
                continue
            b = c.ctx.bound(st, close(c.ctx, st, d))
            if b[0] > 0 or b[1] < 0:
                return True
            try:
                if differ(c, st, False, ws[0], ws[1]):
                    return True
            except (StopIteration, KeyError, IndexError):
                pass
            s = st.clone()
            try:
                c.ctx.assume(s, close(c.ctx, st, d), 0, 0)
                for a, b2 in zip(ws[0], ws[1] or [c.ctx.c(0)] * c.n):
                    c.ctx.assume(s, padd(a.p, b2.p, -1), 0, 0)
                strengthen(c.ctx, s, d)
                for k2 in s.ne:
                    if cong_zero(c.ctx, s, dict(k2), 0):
                        raise Infeasible()
            except Infeasible:
                return True
        return False

    def rel(self, c, st, X, lt):
        """the path excludes: signed X0 < X1 / = / > given as -1, 0, 1"""
        raise NotImplementedError

    def excluded(self, c, st, combo):
        """the path is inconsistent with (a above half, b above half, sign of a-b)"""
        q = c.q
        h = (q - 1) // 2
        A, B = [value(c.sem.canon(None_state, x)) for x in c.X]
        ha, hb, r = combo
        s = st.clone()
        try:
            c.ctx.assume(s, A, *((h + 1, None) if ha else (None, h)))
            c.ctx.assume(s, B, *((h + 1, None) if hb else (None, h)))
            d = padd(A, B, -1)
            c.ctx.assume(s, d, *((None, -1) if r < 0 else (1, None) if r > 0 else (0, 0)))
            for p, lo, hi in list(s.facts):
                b = c.ctx.bound(s, p)
                if lo is not None and b[1] < lo or hi is not None and b[0] > hi:
                    return True
            for p in (A, B, d):
                b = c.ctx.bound(s, p)
                if b[0] > b[1]:
                    return True
            strengthen(c.ctx, s, d)
        except Infeasible:
            return True
        if r == 0:
            return self.equal(c, st, c.X, False)
        if self.equal(c, st, c.X, True):
            return True
        return False

    def k_cmp(self, c, op, pred, key):
        q = c.q
        same = c.X[0] == c.X[1]

        def judge(st):
            k = self.num(c, st).const()
            if k not in (0, 1):
                return False
            if op in ("eq", "neq"):
                want_eq = (k == 1) == (op == "eq")
                return want_eq if same else self.equal(c, st, c.X, want_eq)
            for ha in (0, 1):
                for hb in (0, 1):
                    for r in (-1, 0, 1):
                        if (r == 0 and ha != hb) or (same and r) or (ha < hb and r > 0) or (ha > hb and r < 0):
                            continue
                        sg = hb - ha if ha != hb else r      # above half is negative
                        if pred(sg, 0) == bool(k):
                            continue
                        if not self.excluded(c, st, (ha, hb, r)):
                            return False
            return True

        def witness(ev, st):
            a, b = [signed(q, c.sem.ev(ev, x)) for x in c.X]
            t = ev(c.mem.load(st, Ptr(c.rp.r, 4), 4).p)
            k = ev(self.rshort(c, st).p)
            if t != SHORT or k != int(pred(a, b)):
                return "tag %#x value %d instead of %d (a=%d, b=%d)" % (t, k, int(pred(a, b)), a, b)
        self.go(c, key, "compare", judge, witness)

    def truths(self, c, st, n):
        """truth values of the operands the path still allows"""
        out = [[]]
        for i in range(n):
            poss = []
            if not self.equal(c, st, [c.X[i]], True):
                poss.append(True)
            if not self.equal(c, st, [c.X[i]], False):
                poss.append(False)
            out = [o + [x] for o in out for x in poss]
        return out

    def k_bool(self, c, op, pred, key):
        n = len(c.X)

        def judge(st):
            k = self.num(c, st).const()
            return k in (0, 1) and all(bool(pred(*t)) == bool(k) for t in self.truths(c, st, n) if not (n == 2 and c.X[0] == c.X[1] and t[0] != t[1]))

        def witness(ev, st):
            w = int(bool(pred(*[c.sem.ev(ev, x) != 0 for x in c.X])))
            t = ev(c.mem.load(st, Ptr(c.rp.r, 4), 4).p)
            k = ev(self.rshort(c, st).p)
            if t != SHORT or k != w:
                return "tag %#x value %d instead of %d (%s)" % (t, k, w, self.operands(c, ev))
        self.go(c, key, "compare", judge, witness)

    def k_true(self, c, op, pred, key):
        def judge(st):
            v = c.ctx.tight(st, self.num(c, st))
            if v.lo > 0:
                return self.equal(c, st, c.X, False)
            if v.const() == 0:
                return self.equal(c, st, c.X, True)
            return False

        def witness(ev, st):
            k, w = ev(c.ret(st).p) % (1 << 32), c.sem.ev(ev, c.X[0]) != 0
            if bool(k) != w:
                return "returns %d (%s)" % (k, self.operands(c, ev))
        self.go(c, key, "compare", judge, witness)

    def outside(self, c, st, x, lo, hi):
        """the path is inconsistent with lo <= x <= hi, a window of at most two values of the upper words"""
        ws = c.sem.canon(None_state, x)
        cut = (hi >> 64) << 64
        for l, h in ([(lo, hi)] if lo >= cut else [(lo, cut - 1), (cut, hi)]):
            if l >> 64 != h >> 64:
                return False
            s = st.clone()
            try:
                for i in range(c.n - 1, 0, -1):
                    k = l >> (64 * i) & (M64 - 1)
                    c.ctx.assume(s, ws[i].p, k, k)
                c.ctx.assume(s, ws[0].p, l % M64, h % M64)
                self.consistent(c, s, value(ws))
            except Infeasible:
                continue
            return False
        return True

    def consistent(self, c, s, v):
        # low parts whose dividend is now known to have a single quotient
        for a, (lo, hi, _) in enumerate(c.ctx.atoms):
            d = c.ctx.defs[a]
            if d[0] != "lo":
                continue
            b = c.ctx.bound(s, d[1])
            if b[0] >> d[2] == b[1] >> d[2]:
                k = b[0] >> d[2] << d[2]
                c.ctx.assume(s, {(a,): c.ctx.one}, b[0] - k, b[1] - k)
        for p, lo, hi in list(s.facts):
            b = c.ctx.bound(s, p)
            if lo is not None and b[1] < lo or hi is not None and b[0] > hi:
                raise Infeasible()
        for k in s.ne:
            if c.ctx.bound(s, dict(k)) == (0, 0):
                raise Infeasible()
        strengthen(c.ctx, s, v)

    def confirm(self, c, paths, witness, count=400):
        q, R = c.q, c.sem.R
        t0 = time.time()
        for i in range(count):
            rnd = random.Random(i)
            inp, txt = {"seed": i}, []
            sc = []
            for s in c.S:
                (m, _), = s.p.items()
                lo, hi = c.ctx.atoms[m[0]][:2]
                ch = [x for x in (0, 1, 2, -1, -2, S31 - 1, S31 - 2, -S31, 1 - S31, 0x40000000, -0x40000000) if lo <= x <= hi]
                x = inp[("a", m[0])] = rnd.choice(ch) if rnd.random() < .6 else rnd.randint(lo, hi)
                sc.append(x)
                txt.append("%s=%d" % (c.sem.scal[m[0]], x))
            for nm in c.names:
                k = rnd.choice((0, 1, 2, 3, S31 - 1, S31, S31 + 1, rnd.randrange(S31), rnd.randrange(1 << 33)))
                up = rnd.choice((1 << 64, 1 << 63, 1 << 32, 1 << (c.q.bit_length() - 1), rnd.randrange(q) >> 64 << 64))
                x = rnd.choice((k, -k, k + up, -k + up, -k - up, q // 2 + rnd.randrange(-1, 3), rnd.randrange(q), 1 << rnd.randrange(q.bit_length())) +
                               tuple(z + d for z in sc for d in (0, 0, 1, -1)) + tuple(z + d for z in inp.values() for d in (0, 1, -1)))
                if rnd.random() < .3:
                    x = x * pow(R, -1 if rnd.random() < .5 else 1, q)
                inp[nm] = x % q
                txt.append("%s=%#x" % (nm, x % q))
            ev = c.ctx.evaluate(inp)
            for st in paths:
                try:
                    w = witness(ev, st) if on_path(c.ctx, ev, st) else None
                except ArithmeticError:
                    continue
                if w:
                    return "%s for %s" % (w, ", ".join(txt) or "every input"), st
            if time.time() - t0 > 60:
                break
        return None

    def k_int(self, c, op, pred, key):
        q = c.q
        A = value(c.sem.canon(None_state, c.X[0]))

        def judge(st):
            if any(e[0] == "call" for e in st.events):
                return all(self.outside(c, st, c.X[0], lo, hi) for lo, hi in ((0, S31 - 1), (q - S31, q - 1)))
            v = self.num(c, st)
            outs = []
            for lo, hi, off in ((0, S31 - 1, 0), (S31, (1 << 32) - 1, 1 << 32)):
                if v.hi < lo or v.lo > hi:
                    continue
                s = st.clone()
                try:
                    c.ctx.assume(s, v.p, lo, hi)
                except Infeasible:
                    continue
                p = padd(v.p, {(): off << c.ctx.SH}, -1) if off else v.p
                w = padd(A, {(): q << c.ctx.SH}, -1) if off else A
                strengthen(c.ctx, s, padd(p, w, -1))
                outs.append(cong_zero(c.ctx, s, padd(p, w, -1), 0))
            return all(outs)

        def witness(ev, st):
            x = c.sem.ev(ev, c.X[0])
            want = x if x < S31 else x - q if x >= q - S31 else None
            failed = any(e[0] == "call" for e in st.events)
            k = ev(c.ret(st).p) % (1 << 32)
            k = k - (1 << 32) if k >> 31 else k
            if failed != (want is None) or (not failed and k != want):
                return "%s instead of %s for the value %#x" % ("fails" if failed else "returns %d" % k, "failing" if want is None else want, x)
        self.go(c, key, "int", judge, witness)


def parts_of(nargs, rets):
    k = nargs + (not rets)
    return list(partitions(k))


def unit(check, tier, u):
    key, bk, op = u
    ren = Rendered(key)
    be = BACK[bk](ren)
    R = Elem(check, tier, {"abi": "abi"})
    f = ren.name + "_" + op
    if not be.has(f):
        return
    nargs, cls, _ = OPS[op]
    rets = cls in ("true", "int")
    for part in parts_of(nargs, rets):
        ops = list(part) if rets else list(part[1:])
        gs = list(dict.fromkeys(ops))
        combos = [()]
        for i, g in enumerate(gs):
            ks = KINDS
            if cls == "shift" and g == ops[1]:
                if ops[0] == ops[1]:
                    ks = []             # shifting a number by itself adds nothing
                else:
                    ks = shift_kinds(ren, tier)
            combos = [cb + (k,) for cb in combos for k in ks]
        d = field.describe("a" * nargs if rets else "r" + "a" * nargs, part)
        for cb in combos:
            kinds = dict(zip(gs, cb))
            if op in ("mul", "square") and ren.q < 1 << 62 and all(k[0] in "SM" for k in cb):
                # one call site: the 64-bit product of two short values is stored without being reduced
                R.call(be, op, kinds, part, "%s product of two shorts %s" % (be.kind, key))
                continue
            R.call(be, op, kinds, part, "%s %s %s [%s] %s" % (be.kind, op, d, " ".join(kinds[g] for g in ops), key))


def elements(check, tier):
    check.rule("value", "on every path the tagged result denotes the specified residue in a valid representation, for every tag, operand and aliasing", 200)
    check.rule("compare", "comparisons order the signed representatives, logical operations and the truth test answer on the residue", 100)
    check.rule("int", "conversion to a machine integer returns the signed representative when it fits in 32 bits and fails otherwise", 6)
    check.rule("abi", "the operation restores callee-saved registers and the stack pointer and returns to its caller", 100)
    check.assume += ["operands carry a valid tag: a Montgomery short holds both forms, long words are reduced", "the multi-word routines satisfy their contracts (decided by P10 and P11)",
                     "moduli of more than 31 bits"]
    parallel(check, unit, [(key, bk, op) for op in OPS for key in keys(tier) for bk in range(2)])


def keys(tier):
    return ["bn254r", "goldilocks", "secp256k1"] + (["p192", "p224", "p128", "bls381q", "bls381r", "p61", "m127"] if tier == "thorough" else [])
