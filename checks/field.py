"""Field library: the raw multi-word routines of the three back ends (P10, P11) and their machine-level contracts."""
import random, time
from limb import *
from asm import Ptr, Mem
from fieldlib import *
import fieldlib as F
from report import parallel


def val(c, ws):
    return V(value(ws), 0, (1 << 64 * len(ws)) - 1)


# --- specifications: name -> (parameters, kind, builder)
# parameters: 'r' written element, 'a' read element, 's:lo:hi' scalar
# builder(call, [element words...], [scalars...]) -> (polynomial, multiplier) with  result * multiplier = polynomial (mod q)
def P(c, *t):
    r = {}
    for k, x in t:
        r = padd(r, x.p if isinstance(x, V) else x, k)
    return r


def masked(c, st, ws):
    """words with everything above the bit length of q cleared"""
    top = c.be.ren.bits - 64 * (c.n - 1)
    ws = list(ws)
    if top < 64:
        ws[-1] = c.ctx.split(st, ws[-1], top)[0]
    return ws


def bitop(name):
    def f(c, st, E, S):
        ws = [getattr(c.ctx, "b" + name)(st, x, y) for x, y in zip(E[0], E[1])]
        return value(masked(c, st, ws)), 1
    return f


def bitnot(c, st, E, S):
    return value(masked(c, st, [c.ctx.sub(c.ctx.c(M64 - 1), x) for x in E[0]])), 1


def shifted(c, st, ws, b, left):
    C, n = c.ctx, c.n
    w, k = divmod(b, 64)
    z = C.c(0)
    if left:
        ws = ([z] * w + list(ws))[:n] if w < n else [z] * n
        if k:
            ws = [C.add(C.shl(st, ws[i], k), C.shr(st, ws[i - 1], 64 - k) if i else z) for i in range(n)]
        return masked(c, st, ws)
    ws = (list(ws) + [z] * w)[w:w + n] if w < n else [z] * n
    if k:
        ws = [C.add(C.shr(st, ws[i], k), C.shl(st, ws[i + 1], 64 - k) if i + 1 < n else z) for i in range(n)]
    return ws


ARITH = {
    "rawAdd": ("raa", lambda c, st, E, S: (P(c, (1, value(E[0])), (1, value(E[1]))), 1)),
    "rawSub": ("raa", lambda c, st, E, S: (P(c, (1, value(E[0])), (-1, value(E[1]))), 1)),
    "rawNeg": ("ra", lambda c, st, E, S: (P(c, (-1, value(E[0]))), 1)),
    "rawMMul": ("raa", lambda c, st, E, S: (c.ctx.mul(val(c, E[0]), val(c, E[1])).p, c.be.ren.R)),
    "rawMSquare": ("ra", lambda c, st, E, S: (c.ctx.mul(val(c, E[0]), val(c, E[0])).p, c.be.ren.R)),
    "rawMMul1": ("ra6", lambda c, st, E, S: (c.ctx.mul(val(c, E[0]), S[0]).p, c.be.ren.R)),
    "rawToMontgomery": ("ra", lambda c, st, E, S: (pscale(value(E[0]), c.be.ren.R), 1)),
    "rawFromMontgomery": ("ra", lambda c, st, E, S: (value(E[0]), c.be.ren.R)),
    "rawAddLS": ("rap", lambda c, st, E, S: (P(c, (1, value(E[0])), (1, S[0])), 1)),
    "rawSubLS": ("rap", lambda c, st, E, S: (P(c, (1, value(E[0])), (-1, S[0])), 1)),
    "rawSubSL": ("rpa", lambda c, st, E, S: (P(c, (-1, value(E[0])), (1, S[0])), 1)),
    "rawNegLS": ("ran", lambda c, st, E, S: (P(c, (-1, value(E[0])), (-1, S[0])), 1)),
}
BITS = {
    "rawAnd": ("raa", bitop("and")), "rawOr": ("raa", bitop("or")), "rawXor": ("raa", bitop("xor")), "rawNot": ("ra", bitnot),
}
SHIFTS = {"rawShl": True, "rawShr": False}
EXACT = {
    "rawCopy": ("ra", lambda c, st, E, S: value(E[0])),
    "rawZero": ("r", lambda c, st, E, S: {}),
}
# header prototypes of the exported form; x86 uses its own labels for the rest
X86_INTERNAL = {"rawAddLS": "rawAddLS", "rawSubLS": "rawSubLS", "rawSubSL": "rawSubSL", "rawNegLS": "rawNegLS"}
SCAL = {"6": (0, M64 - 1), "p": (0, 1 << 31), "n": (1, 1 << 31)}


def setup(be, fname, sig, part, scal=None, depth=2, top=None):
    """one call with the pointer parameters coinciding as in `part`"""
    c = Call(be, fname, depth)
    cls, E, S, names = {}, [], [], []
    k = 0
    for ch in sig:
        if ch in "ra":
            g = part[k]
            k += 1
            nm = "p%d" % g
            if g not in cls:
                cls[g] = {"name": nm, "r": False, "w": None}
            d = cls[g]
            if ch == "r":
                d["r"] = True
            elif d["w"] is None:
                d["w"] = c.block("X%d" % g, None if top is None else top(c))
                names.append("X%d" % g)
            if ch == "a":
                E.append(d)
            c.args.append(("p", g))
        else:
            lo, hi = SCAL[ch]
            v = c.ctx.var("s", lo, hi) if scal is None else c.ctx.c(scal)
            S.append(v)
            c.args.append(v)
    ptrs = {}
    for g, d in cls.items():
        ptrs[g] = c.words(d["name"], d["w"], write=d["r"]) if d["w"] else c.region(d["name"])
    c.args = [ptrs[a[1]] if isinstance(a, tuple) else a for a in c.args]
    c.E, c.S, c.names = [d["w"] for d in E], S, names
    c.cls = cls
    c.result = next((d["name"] for d in cls.values() if d["r"]), None)
    return c


def describe(sig, part):
    """r=a, a=b ..."""
    nm, i = [], 0
    for ch in sig:
        if ch in "ra":
            nm.append("r" if ch == "r" else "ab"[sum(1 for x in nm if x != "r")])
    eq = []
    for i in range(len(nm)):
        for j in range(i):
            if part[i] == part[j]:
                eq.append("%s=%s" % (nm[j], nm[i]))
                break
    return ",".join(eq) or "distinct"


class Runner:
    def __init__(self, check, tier, rules):
        self.ck, self.tier, self.rules = check, tier, rules

    def where(self, be, fname, extra=""):
        return "%s %s, %s of the %s rendering%s" % (be.kind, fname, be.file.lstrip("."), be.ren.key, extra)

    def go(self, c, key, rule, judge, witness, report=True, abi=True):
        """run one call; judge(st)->True/False per path; witness(ev, st)->None or text for a definite mismatch"""
        ck, be = self.ck, c.be
        try:
            t0 = time.time()
            paths = c.run()
        except Violation as e:
            if report:
                ck.bad(rule, key, self.where(be, c.fname, " " + str(getattr(e, "where", ""))), str(e))
            return False
        except Undecided as e:
            if report:
                ck.undecided(rule, key, e)
            return False
        ck.count("paths analysed", len(paths))
        ck.count("routine calls analysed")
        failed = []
        for st in paths:
            try:
                if not self.proved(c, st, judge):
                    failed.append(st)
            except Infeasible:
                continue
            except (Undecided, Fork) as e:
                failed.append(st)
            if abi and be.kind != "portable C++":
                bad = be.abi(c, st)
                if report and "abi" in self.rules:
                    ck.check(self.rules["abi"], key, not bad, self.where(be, c.fname), "; ".join(bad))
                if bad:
                    return False
        if not failed:
            if report:
                ck.ok(rule, key)
            return True
        if report:
            w = self.confirm(c, failed, witness)
            if w:
                ck.bad(rule, key, self.where(be, c.fname, " path " + " > ".join(w[1].trace[-4:])), w[0])
            else:
                ck.undecided(rule, key, "%d of %d paths not proved" % (len(failed), len(paths)))
        return False

    def proved(self, c, st, judge, depth=0):
        try:
            if judge(st):
                return True
            r = value(c.get(st, c.result)) if getattr(c, "result", None) else {}
            strengthen(c.ctx, st, r)
            if judge(st):
                return True
        except Infeasible:
            return True
        sub = cases(c.ctx, st, close(c.ctx, st, r)) if depth < 2 else None
        return sub is not None and all(self.proved(c, x, judge, depth + 1) for x in sub)

    def confirm(self, c, paths, witness, count=150):
        q = c.q
        tops = {nm: c.ctx.blocks[nm][1] for nm in c.names}
        t0 = time.time()
        for i, d in enumerate(samples(q, c.n, c.names, count, tops=tops)):
            rnd = random.Random(i)
            inp = dict(d)
            inp["seed"] = i
            for s in c.S + getattr(c, "free", []):
                if s.const() is None:
                    (m, _), = s.p.items()
                    lo, hi = c.ctx.atoms[m[0]][:2]
                    ch = [x for x in SCALARS + [lo, hi] if lo <= x <= hi]
                    inp[("a", m[0])] = rnd.choice(ch) if rnd.random() < .7 else rnd.randint(lo, hi)
            ev = c.ctx.evaluate(inp)
            for st in paths:
                try:
                    if not on_path(c.ctx, ev, st):
                        continue
                    w = witness(ev, st)
                except ArithmeticError:
                    continue
                if w:
                    return w + " for " + ", ".join(["%s=%#x" % (k, v) for k, v in d.items()] + ["s=%#x" % ev(s.p) for s in c.S]), st
            if time.time() - t0 > 60:
                break
        return None

    # --- rules
    def modular(self, be, fname, sig, spec, part, key, rule, scal=None, report=True, top=None):
        c = setup(be, fname, sig, part, scal, top=top)
        q = c.q

        def judge(st):
            rw = c.get(st, c.result)
            r = value(rw)
            s, k = spec(c, st, c.E, c.S)
            if not in_range(c.ctx, st, r, 0, q - 1):
                return False
            return cong_zero(c.ctx, st, padd(pscale(r, k), s, -1), q)

        def witness(ev, st):
            got = sum(ev(w.p) << (64 * i) for i, w in enumerate(c.get(st, c.result)))
            s, k = spec(c, st, c.E, c.S)
            want = ev(s) * pow(k, -1, q) % q
            if got != want:
                return "result %#x instead of %#x" % (got, want)
        return self.go(c, key, rule, judge, witness, report)

    def exact(self, be, fname, sig, spec, part, key, rule, scal=None, report=True, off=0):
        c = setup(be, fname, sig, part, scal)

        def judge(st):
            r = value(c.get(st, c.result))
            return cong_zero(c.ctx, st, padd(r, spec(c, st, c.E, c.S), -1), 0)

        def witness(ev, st):
            got = sum(ev(w.p) << (64 * i) for i, w in enumerate(c.get(st, c.result)))
            want = ev(spec(c, st, c.E, c.S))
            if got != want:
                return "result %#x instead of %#x" % (got, want)
        return self.go(c, key, rule, judge, witness, report)

    def swap(self, be, fname, key, rule):
        for part in ((0, 1), (0, 0)):
            c = Call(be, fname)
            A = c.block("A")
            pa = c.words("A", A)
            if part[1]:
                B = c.block("B")
                pb = c.words("B", B)
            else:
                B, pb = A, pa
            c.args = [pa, pb]
            c.names, c.S = ["A", "B"][:part[1] + 1], []

            def judge(st):
                return cong_zero(c.ctx, st, padd(value(c.get(st, pa.r)), value(B), -1), 0) and cong_zero(c.ctx, st, padd(value(c.get(st, pb.r)), value(A), -1), 0)

            def witness(ev, st):
                ga, gb = [sum(ev(w.p) << (64 * i) for i, w in enumerate(c.get(st, p.r))) for p in (pa, pb)]
                wa, wb = ev(value(B)), ev(value(A))
                if (ga, gb) != (wa, wb):
                    return "operands become %#x, %#x instead of %#x, %#x" % (ga, gb, wa, wb)
            self.go(c, key + ("" if part[1] else " same operand"), rule, judge, witness)

    def relation(self, be, fname, sig, key, rule, same, expect, prove):
        """routines returning a number about their operands; expect(ints)->predicate on the returned 32-bit number; prove(c, st, k)"""
        c = setup(be, fname, sig, (0, 0) if same else tuple(range(len(sig))))

        def low32(st):
            v = c.ret(st)
            if not isinstance(v, V):
                raise Undecided("result is not a number")
            k = v.const()
            if k is None:
                lo = c.ctx.split(st, v, 32)[0] if v.lo < 0 or v.hi >= 1 << 32 else v
                k = lo.const()
                if k is None:
                    raise Undecided("result is not constant on the path")
            k %= 1 << 32
            return k - (1 << 32) if k >> 31 else k

        def judge(st):
            return prove(c, st, low32(st))

        def witness(ev, st):
            v = c.ret(st)
            k = ev(v.p) % (1 << 32)
            k = k - (1 << 32) if k >> 31 else k
            xs = [ev(value(e)) for e in c.E]
            if not expect(xs, k):
                return "returns %d" % k
        return self.go(c, key, rule, judge, witness)


BACKENDS = [BX86, BArm, BCpp]
ORDER = sorted(ARITH, key=lambda k: (not k.startswith("rawM"), k))


def backends(ren):
    return [b(ren) for b in BACKENDS]


def quick_primes():
    return ["bn254r", "secp256k1", "goldilocks", "p128", "p192"]


def primes(tier):
    return quick_primes() + (["bls381q", "bls381r", "bn254q", "m127", "c25519", "p61", "p384"] if tier == "thorough" else ["bls381q"])


def wide(tier):
    """moduli long enough for a back end to run out of registers, and moduli at the edge of the shorter reduction"""
    if tier == "thorough":
        return ([(k, bk, base) for base in ORDER for k in ("p448", "bls446", "p521") for bk in range(3)]
                + [("mnt753", 1, base) for base in ORDER])
    return ([("bls446", 0, base) for base in ("rawMMul", "rawMSquare", "rawMMul1", "rawFromMontgomery")] + [("p384", 0, base) for base in ORDER]
            + [("mnt753", 1, base) for base in ORDER if not base.startswith("rawMM")] + [(k, bk, base) for k in ("m127", "c25519") for bk in range(3) for base in ORDER])


def find(be, base):
    """label or function implementing a routine of the library on this back end"""
    nm = be.ren.name
    for f in (nm + "_" + base, base):
        if be.has(f):
            return f
    return None


def arithmetic(check, tier):
    check.rule("exact", "on every path the result words denote the specified residue and are below the modulus, for every operand value and every aliasing of result and operands", 200)
    check.rule("abi", "the routine restores callee-saved registers and the stack pointer and returns to its caller", 100)
    check.assume += ["operands are canonical (below the modulus), scalars in the range the element operations pass",
                     "the instruction set and GMP's mpn functions behave as documented", "the interpreters' instruction models"]
    parallel(check, arith_unit, wide(tier) + [(key, bk, base) for key in primes(tier) for bk in range(3) for base in ORDER])


def arith_unit(check, tier, unit):
    key, bk, base = unit
    R = Runner(check, tier, {"abi": "abi"})
    be = BACKENDS[bk](Rendered(key))
    sig, spec = ARITH[base]
    f = find(be, base)
    if f is None:
        return
    internal = not be.exported(f)
    for part in partitions(sum(ch in "ra" for ch in sig)):
        R.modular(be, f, sig, spec, part, "%s %s %s %s" % (be.kind, base, describe(sig, part), key), "exact", report=not internal)
        if base == "rawToMontgomery" and be.ren.n == 1:     # conversion from a machine word may exceed a one-word modulus
            R.modular(be, f, sig, spec, part, "%s %s of any word %s %s" % (be.kind, base, describe(sig, part), key), "exact", report=not internal, top=lambda c: M64 - 1)


def bitwise(check, tier):
    check.rule("exact", "on every path the result words denote the specified value and are canonical, for every operand value, shift count and aliasing", 200)
    check.rule("compare", "equality, zero test and comparison return the right answer on every path", 20)
    check.rule("move", "copy, clear and swap move every word of the operands", 10)
    check.rule("abi", "the routine restores callee-saved registers and the stack pointer and returns to its caller", 100)
    check.assume += ["operands are canonical (below the modulus), shift counts below the bit length of the modulus"]
    bases = list(SHIFTS) + list(BITS) + list(EXACT) + ["rawSwap", "rawIsEq", "rawIsZero", "rawCmp", "rawCopyS2L"]
    keys = dict.fromkeys(["mnt753", "p448", "bls446", "p384", "p521"] + primes(tier))
    # the twelve-word AArch64 comparison has more paths than are followed; the x86 shift of twelve words takes minutes
    skip = {("mnt753", 1, "rawCmp")} | (set() if tier == "thorough" else {("mnt753", 0, "rawShl")})
    parallel(check, bit_unit, [u for base in bases for key in keys for bk in range(3) for u in [(key, bk, base)] if u not in skip])


def shift_counts(ren, tier):
    if tier == "thorough" and ren.n <= 6 or ren.n <= 1:
        return range(ren.bits)
    return sorted(b for b in {b for w in range(0, ren.bits, 64) for b in (w, w + 1, w + 31, w + 32, w + 63)} | {ren.bits - 1, ren.bits - 2} if b < ren.bits)


def bit_unit(check, tier, unit):
    key, bk, base = unit
    R = Runner(check, tier, {"abi": "abi"})
    ren = Rendered(key)
    be = BACKENDS[bk](ren)
    f = find(be, base)
    if f is None:
        return
    K = lambda d="": "%s %s %s %s" % (be.kind, base, d, key)
    rep = be.exported(f)
    if base in BITS:
        sig, spec = BITS[base]
        for part in partitions(len(sig)):
            R.modular(be, f, sig, spec, part, K(describe(sig, part)), "exact", report=rep)
    elif base in SHIFTS:
        left = SHIFTS[base]
        for b in shift_counts(ren, tier):
            for part in ((0, 1), (0, 0)):
                k = K("%s by %d" % (describe("ra", part), b))
                SCAL["#"] = (b, b)
                if left:
                    R.modular(be, f, "ra#", lambda c, st, E, S, b=b: (value(shifted(c, st, E[0], b, True)), 1), part, k, "exact", scal=b, report=rep)
                else:
                    R.exact(be, f, "ra#", lambda c, st, E, S, b=b: value(shifted(c, st, E[0], b, False)), part, k, "exact", scal=b, report=rep)
    elif base in EXACT:
        sig, spec = EXACT[base]
        for part in partitions(len(sig)):
            R.exact(be, f, sig, spec, part, K(describe(sig, part)), "move", report=rep)
    elif not rep:
        return
    elif base == "rawSwap":
        R.swap(be, f, K(), "move")
    elif base == "rawIsEq":
        R.relation(be, f, "aa", K("a=b"), "compare", True, lambda x, k: k == 1, lambda c, st, k: k == 1)
        R.relation(be, f, "aa", K("distinct"), "compare", False, lambda x, k: k == int(x[0] == x[1]),
                   lambda c, st, k: differ(c, st, k == 1, c.E[0], c.E[1]) if k in (0, 1) else False)
    elif base == "rawIsZero":
        R.relation(be, f, "a", K(), "compare", False, lambda x, k: k == int(x[0] == 0),
                   lambda c, st, k: differ(c, st, k == 1, c.E[0], None) if k in (0, 1) else False)
    elif base == "rawCmp":
        sg = lambda x: (x > 0) - (x < 0)
        R.relation(be, f, "aa", K("a=b"), "compare", True, lambda x, k: k == 0, lambda c, st, k: k == 0)
        R.relation(be, f, "aa", K("distinct"), "compare", False, lambda x, k: sg(k) == sg(x[0] - x[1]), order)
    elif base == "rawCopyS2L":
        copys2l(R, be, f, K(), "move")


def differ(c, st, eq, A, B):
    """the path facts imply A = B (eq) or are inconsistent with A = B"""
    d = close(c.ctx, st, padd(value(A), value(B) if B else {}, -1))
    b = c.ctx.bound(st, d)
    if eq:
        return b == (0, 0) or cong_zero(c.ctx, st, d, 0)
    if b[0] > 0 or b[1] < 0:
        return True
    # some recorded word difference is nonzero: it must vanish identically when A = B
    m = {}
    for x, y in zip(A, B or [c.ctx.c(0)] * len(A)):
        m[next(iter(x.p))[0]] = y.p

    def vanish(p):
        for a, e in m.items():
            p = subst(c.ctx, p, a, e)
            if p is None:
                return None
        return p
    for k in st.ne:
        if vanish(dict(k)) == {}:
            return True
    for p, lo, hi in st.facts:
        v = vanish(p)
        if v is not None and all(not mm for mm in v):
            x = v.get((), 0) >> c.ctx.SH
            if (lo is not None and x < lo) or (hi is not None and x > hi):
                return True
    for a, (lo, hi) in st.rng.items():
        d = c.ctx.defs[a]
        if d[0] in ("or", "xor") and lo > 0 and deep_zero(c, d, vanish):
            return True
        v = vanish({(a,): c.ctx.one})
        if v is not None and all(not mm for mm in v) and not lo <= (v.get((), 0) >> c.ctx.SH) <= hi:
            return True
    return False


def deep_zero(c, d, vanish):
    """an or/xor word is zero once A = B"""
    def z(x):
        if vanish(x.p) == {}:
            return True
        if len(x.p) == 1:
            (m, _), = x.p.items()
            if len(m) == 1:
                dd = c.ctx.defs[m[0]]
                if dd[0] == "or":
                    return z(dd[1]) and z(dd[2])
                if dd[0] == "and":
                    return z(dd[1]) or z(dd[2])
                if dd[0] == "xor":
                    return vanish(padd(dd[1].p, dd[2].p, -1)) == {}
        return False
    if d[0] == "xor":
        return vanish(padd(d[1].p, d[2].p, -1)) == {} or (z(d[1]) and z(d[2]))
    return z(d[1]) and z(d[2])


def order(c, st, k):
    d = close(c.ctx, st, padd(value(c.E[0]), value(c.E[1]), -1))
    b = c.ctx.bound(st, d)
    if k == 0:
        return b == (0, 0) or cong_zero(c.ctx, st, d, 0)
    if k > 0 and b[0] >= 0 or k < 0 and b[1] <= 0:
        return (b[0] > 0 or b[1] < 0) or differ(c, st, False, c.E[0], c.E[1])
    return False


def copys2l(R, be, f, key, rule):
    for neg in (False, True):
        c = Call(be, f)
        v = c.ctx.var("s", 0, (1 << 63) - 1) if not neg else c.ctx.var("s", 1 << 63, M64 - 1)
        p = c.region("r")
        c.args = [p, v]
        c.names, c.S, c.result = [], [v], "r"
        q = c.q
        if neg and q < 1 << 64:
            # a 64-bit negative number may be below -q: the library only passes 32-bit numbers
            v = c.ctx.var("s", M64 - (1 << 31), M64 - 1)
            c.args[1] = v
            c.S = [v]
        elif q < 1 << 64:
            v = c.ctx.var("s", 0, min((1 << 31) - 1, q - 1))
            c.args[1] = v
            c.S = [v]
        want = padd(v.p, {(): (q - M64) << c.ctx.SH}) if neg else v.p

        def judge(st):
            return cong_zero(c.ctx, st, padd(value(c.get(st, "r")), want, -1), 0)

        def witness(ev, st):
            got = sum(ev(w.p) << (64 * i) for i, w in enumerate(c.get(st, "r")))
            if got != ev(want):
                return "result %#x instead of %#x" % (got, ev(want))
        R.go(c, key + ("negative" if neg else "non-negative"), rule, judge, witness)
