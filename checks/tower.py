"""Extension-field towers: each operation value-numbered over an opaque base ring and compared with the
multiplication table of the extension; Frobenius maps and literal constants evaluated modulo the BN254 prime."""
import os, sys
from absint import *
from ring import *
from report import REPO, ROOT

S = Poly.sym
BNQ = 21888242871839275222246405745257275088696311157297823662689037894645226208583
BNR = 21888242871839275222246405745257275088548364400416034343698204186575808495617
FLAGS = lambda *x: ["-I" + ROOT + "/drivers/stubs", "-I" + REPO + "/c"] + list(x)
LEVELS = {2: (2, 32, "F2Field"), 6: (3, 64, "F6Field"), 12: (2, 192, "F12Field")}


def mulspec(level, a, b, q):
    """coordinates in storage order"""
    if level == 2:          # a + b u, u^2 = q
        return [a[0] * b[0] + q * a[1] * b[1], a[0] * b[1] + a[1] * b[0]]
    if level == 12:         # x w + y, w^2 = q
        return [a[0] * b[1] + a[1] * b[0], a[1] * b[1] + q * a[0] * b[0]]
    # x v^2 + y v + z, v^3 = q
    return [a[0] * b[2] + a[1] * b[1] + a[2] * b[0], a[1] * b[2] + a[2] * b[1] + q * a[0] * b[0], a[2] * b[2] + q * (a[0] * b[1] + a[1] * b[0])]


def unit(level):
    return {2: [1, 0], 6: [0, 0, 1], 12: [0, 1]}[level]


def where_member(mod, fname, cls):
    for b in mod["functions"][fname]["blocks"]:
        for i in b:
            if i["op"] in ("call", "invoke") and i["callee"][0] == "f":
                d = mod["functions"].get(i["callee"][1])
                if d and "Field<" in d["dem"]:
                    return "%s:%s %s" % (os.path.basename(d.get("file") or cls), d.get("line"), d["dem"].split("(")[0])
    return cls


class TCtx:
    def __init__(self, level, nr=None, nz=(), flags=()):
        self.level = level
        self.mod = compile_ir(ROOT + "/drivers/tower_driver.cpp", FLAGS("-DTOWER=%d" % level, *flags))
        self.m = Machine(self.mod)
        self.cl = RingClient()
        install(self.m, self.cl, strings=self.strings)
        install_strings(self.m)
        self.nr = nr
        size = self.m.run(self.m.new_state(), "d_size", [])[0].result
        self.esize = self.m.run(self.m.new_state(), "d_esize", [])[0].result
        s = self.m.new_state()
        s.tags["nz"] = tuple(nz)
        self.obj = s.alloc(size, "field", "heap")
        args = [Ptr(self.obj, 0)]
        if level == 2:
            o = s.alloc(32, "nr", "heap")
            s.mem[o].cells[0] = (32, Rat(nr))
            args.append(Ptr(o, 0))
        out = [x for x in self.m.run(s, "d_ctor", args) if x.ended == "ret"]
        if len(out) != 1:
            raise Undecided("constructor outcomes: %d" % len(out))
        self.base = out[0]
        self.base.ended = None

    def strings(self, m, s, ring, args):
        return Rat(S("const{%s}" % (m.getstr(s, args[0]),)))

    def op(self, fn, vals, alias, es, nz=()):
        """vals: list of coordinate lists (None for the result); es: per-parameter (count, size)"""
        m = self.m
        m.client_uninit, m.oob, m.divisors = [], [], []
        s = self.base.clone()
        s.tags["nz"] = s.tags.get("nz", ()) + tuple(nz)
        objs, ptrs = {}, []
        for (n, sz), v, g in zip(es, vals, alias):
            if g not in objs:
                objs[g] = s.alloc(n * sz, "operand", "heap")
            if v is not None:
                for j, x in enumerate(v):
                    s.mem[objs[g]].cells[j * sz] = (sz, Rat(x))
            ptrs.append(Ptr(objs[g], 0))
        return m.run(s, fn, [Ptr(self.obj, 0)] + ptrs), ptrs


def common(check, c, key, w):
    for u in c.m.client_uninit:
        check.bad("defined-inputs", u[1][:70] + " in " + key.split(" ")[0], u[0], u[1])
    if c.m.oob:
        check.bad("defined-inputs", "bounds " + key, c.m.oob[0][0], str(c.m.oob[0]))
    if not c.m.client_uninit and not c.m.oob:
        check.ok("defined-inputs", key)


def level_checks(check, level, tag, c, q):
    n, sz, cls = LEVELS[level]
    mod = c.mod
    A = [S("%s_a%d" % (cls, i)) for i in range(n)]
    B = [S("%s_b%d" % (cls, i)) for i in range(n)]
    one = unit(level)
    E = (n, sz)

    def judge(fn, key, es, vals, alias, want, nz=(), cond=None):
        w = where_member(mod, fn, cls)
        try:
            fin, ptrs = c.op(fn, vals, alias, es, nz)
        except Undecided as e:
            check.undecided("ring-law", key, e)
            return
        common(check, c, key, w)
        for st in fin:
            if st.ended != "ret":
                check.bad("ring-law", key, w, "does not return (%s)" % st.ended)
                continue
            try:
                got = [elem(c.m, st, Ptr(ptrs[0].obj, i * sz), sz, "result") for i in range(n)]
            except Undecided as e:
                check.undecided("ring-law", key, e)
                continue
            if cond:
                okk, msg = cond(got)
            else:
                bad = [(i, g, x) for i, (g, x) in enumerate(zip(got, want)) if not g.num_eq(x).is_zero()]
                okk, msg = not bad, "coordinate %d is %r, expected %r" % bad[0] if bad else ""
            if not okk and st.zero:
                check.undecided("ring-law", key, msg)
            else:
                check.check("ring-law", key, okk, w, msg)
            for i in range(1, len(alias)):
                if alias[i] != alias[0] and vals[i] is not None:
                    now = [elem(c.m, st, Ptr(ptrs[i].obj, j * es[i][1]), es[i][1], "operand") for j in range(es[i][0])]
                    check.check("operand-intact", key + " operand %d" % i, all(g.num_eq(x).is_zero() for g, x in zip(now, vals[i])), w, "operand changed to %r" % now)
    add = lambda x, y: [p + r for p, r in zip(x, y)]
    sub = lambda x, y: [p - r for p, r in zip(x, y)]
    mul = lambda x, y: mulspec(level, x, y, q)
    for al in ((0, 1, 2), (0, 0, 2), (0, 1, 0), (0, 1, 1), (0, 0, 0)):
        Bv = A if al[1] == al[2] else B
        for nm, f in (("add", add), ("sub", sub), ("mul", mul)):
            judge("d_" + nm, "%s.%s %s alias %s" % (cls, nm, tag, al), [E, E, E], [None, A, Bv], al, f(A, Bv))

        def divok(got):
            lhs = mulr(level, got, Bv, q)
            bad = [(i, l, a) for i, (l, a) in enumerate(zip(lhs, A)) if not l.num_eq(a).is_zero()]
            return (not bad, "quotient times divisor differs from the dividend in coordinate %d" % bad[0][0] if bad else "")
        judge("d_div", "%s.div %s alias %s" % (cls, tag, al), [E, E, E], [None, A, Bv], al, None, cond=divok)
    for al in ((0, 1), (0, 0)):
        un = [("neg", [-x for x in A]), ("square", mul(A, A)), ("copy", A)]
        if level in (2, 6):
            un.append(("dbl", add(A, A)))
        if level in (2,):
            un.append(("conjugate", [A[0], -A[1]]))
            if q == -1:
                un.append(("mulXi", mul(A, [P(9), P(1)])))
        if level == 12:
            un.append(("conjugate", [-A[0], A[1]]))
        if level == 6:
            un.append(("mulTau", mul(A, [P(0), P(1), P(0)])))
        for nm, want in un:
            judge("d_" + nm, "%s.%s %s alias %s" % (cls, nm, tag, al), [E, E], [None, A], al, want)

        def invok(got):
            lhs = mulr(level, got, A, q)
            bad = [(i, l) for i, (l, o) in enumerate(zip(lhs, one)) if not l.num_eq(o).is_zero()]
            return (not bad, "inverse times operand is not one in coordinate %d" % bad[0][0] if bad else "")
        judge("d_inv", "%s.inv %s alias %s" % (cls, tag, al), [E, E], [None, A], al, None, cond=invok)
        k = S("k")
        judge("d_mulScalar", "%s.mulScalar %s alias %s" % (cls, tag, al), [E, E, (1, sz)], [None, A, [k]], al + (9,), [x * k for x in A])
        if level == 6:
            judge("d_mulGFP", "%s.mulGFP %s alias %s" % (cls, tag, al), [E, E, (1, 32)], [None, A, [k]], al + (9,), [x * k for x in A])
    # scalar operand inside the element itself
    for fn, want in (("d_zero", [0] * n), ("d_one", one), ("d_negOne", [-x for x in one])):
        st = c.m.run(c.base.clone(), fn, [Ptr(c.obj, 0)])
        p = st[0].result
        got = [elem(c.m, st[0], Ptr(p.obj, p.off + i * sz), sz, fn) for i in range(n)]
        check.check("constants", "%s.%s %s" % (cls, fn[2:], tag), all(g == x for g, x in zip(got, want)), cls, "is %r" % got)
    preds(check, c, level, cls, tag, A, B, one, E)


def mulr(level, a, b, q):
    return mulspec(level, [Rat(x) if not isinstance(x, Rat) else x for x in a], [Rat(x) if not isinstance(x, Rat) else x for x in b], q)


def preds(check, c, level, cls, tag, A, B, one, E):
    for fn, vals, diffs in (("d_isZero", [A], A), ("d_isOne", [A], [x - o for x, o in zip(A, one)]), ("d_eq", [A, B], [x - y for x, y in zip(A, B)])):
        w = where_member(c.mod, fn, cls)
        key = "%s.%s %s" % (cls, fn[2:], tag)
        try:
            fin, _ = c.op(fn, vals, tuple(range(len(vals))), [E] * len(vals))
        except Undecided as e:
            check.undecided("predicate", key, e)
            continue
        want = [prim(d) for d in diffs]
        seen = set()
        for st in fin:
            z = [d in st.zero or any(prim(x) == d for x in st.zero) for d in want]
            nzs = [any(prim(x) == d for x in st.tags.get("nz", ())) for d in want]
            if not isinstance(st.result, int):
                check.undecided("predicate", key, "result %r" % st.result)
            elif st.result:
                seen.add(True)
                check.check("predicate", key, all(z), w, "returns true without requiring coordinate(s) %s to match" % [i for i, x in enumerate(z) if not x])
            else:
                seen.add(False)
                check.check("predicate", key, any(nzs), w, "returns false although no coordinate is known to differ")
        check.check("predicate", key + " both outcomes", seen == {True, False}, w, "outcomes %s" % seen)


# ---------- numeric part

def install_split(m):
    def h(mm, s, ins, a):
        text = mm.getstr(s, a[1])
        if text is None:
            raise Undecided("splitParStr of an unknown string")
        parts = [t.strip() for t in text.strip("()").split(",")]
        o = s.alloc(32 * len(parts), "vector<string>", "heap")
        for i, t in enumerate(parts):
            s.mem[o].cells[32 * i] = (32, PyStr(t))
        mm.store(s, a[0], 8, Ptr(o, 0))
        mm.store(s, Ptr(a[0].obj, padd(a[0].off, 8)), 8, Ptr(o, 32 * len(parts)))
        mm.store(s, Ptr(a[0].obj, padd(a[0].off, 16)), 8, Ptr(o, 32 * len(parts)))
        return None
    m.register(r"^splitParStr\b", h)


def num_strings(m, s, ring, args):
    t = m.getstr(s, args[0])
    if t is None:
        raise Undecided("constant string not resolved")
    return Rat(P(int(t.strip()) % BNQ))


def f2mul(a, b, p=BNQ):
    return ((a[0] * b[0] - a[1] * b[1]) % p, (a[0] * b[1] + a[1] * b[0]) % p)


def f2pow(a, e):
    r = (1, 0)
    while e:
        if e & 1:
            r = f2mul(r, a)
        a = f2mul(a, a)
        e >>= 1
    return r


def f2inv(a, p=BNQ):
    n = pow(a[0] * a[0] + a[1] * a[1], -1, p)
    return (a[0] * n % p, -a[1] * n % p)


def frobenius(check):
    mod = compile_ir(ROOT + "/drivers/tower_driver.cpp", FLAGS("-DTOWER=112"))
    m = Machine(mod)
    cl = RingClient(BNQ)
    install(m, cl, strings=num_strings)
    install_strings(m)
    install_split(m)
    size = m.run(m.new_state(), "d_size", [])[0].result
    s = m.new_state()
    obj = s.alloc(size, "F12", "heap")
    out = [x for x in m.run(s, "d_ctor", [Ptr(obj, 0)]) if x.ended == "ret"]
    base = out[0]
    base.ended = None
    xi = (9, 1)
    # storage order of the 12 coordinates -> (power of w, power of u)
    order = []
    for half in ("x", "y"):
        for v in (2, 1, 0):
            for u in (0, 1):
                order.append((2 * v + (1 if half == "x" else 0), u))
    C = [S("c%d" % i) for i in range(12)]
    for fn, e, sub in (("d_Frobenius", 1, 12), ("d_FrobeniusP2", 2, 12), ("d_Frobenius6", 1, 6), ("d_FrobeniusP26", 2, 6)):
        ordr = order if sub == 12 else order[6:]
        w = where_member(mod, fn, "F12Field")
        pe = BNQ ** e
        want = [Poly({}) for _ in ordr]
        for i, (k, j) in enumerate(ordr):
            g = f2pow(xi, k * (pe - 1) // 6)
            ug = (0, 1) if j else (1, 0)
            if j and e % 2:
                ug = (0, BNQ - 1)
            img = f2mul(g, ug)
            base_i = i - (i % 2)
            want[base_i] = want[base_i] + C[i] * img[0]
            want[base_i + 1] = want[base_i + 1] + C[i] * img[1]
        for al in ((0, 1), (0, 0)):
            key = "F%d.%s alias %s" % (sub, fn[2:].rstrip("6"), al)
            st0 = base.clone()
            oa = st0.alloc(32 * sub, "a", "heap")
            for i in range(sub):
                st0.mem[oa].cells[32 * i] = (32, Rat(C[i]))
            orr = oa if al[1] == 0 else st0.alloc(32 * sub, "r", "heap")
            m.client_uninit = []
            try:
                for st in m.run(st0, fn, [Ptr(obj, 0), Ptr(orr, 0), Ptr(oa, 0)]):
                    got = [elem(m, st, Ptr(orr, 32 * i), 32, fn) for i in range(sub)]
                    bad = [(i, g, x) for i, (g, x) in enumerate(zip(got, want)) if not g.num_eq(x).mod(BNQ).is_zero()]
                    check.check("frobenius", key, not bad, w, "coordinate %d is %r, expected %r" % bad[0] if bad else "")
            except Undecided as ex:
                check.undecided("frobenius", key, ex)
            for u in m.client_uninit:
                check.bad("defined-inputs", key, u[0], u[1])


def ec_mul(k, Pt, p, ops):
    add, = ops
    R = None
    while k:
        if k & 1:
            R = add(R, Pt)
        Pt = add(Pt, Pt)
        k >>= 1
    return R


def mk_add(p, fmul, finv, fsub, fadd, a):
    def add(A, B):
        if A is None:
            return B
        if B is None:
            return A
        if A[0] == B[0]:
            if A[1] != B[1] or A[1] in (0, (0, 0)):
                return None
            x2 = fmul(A[0], A[0])
            l = fmul(fadd(fadd(x2, x2), fadd(x2, a)), finv(fadd(A[1], A[1])))
        else:
            l = fmul(fsub(B[1], A[1]), finv(fsub(B[0], A[0])))
        x = fsub(fsub(fmul(l, l), A[0]), B[0])
        return x, fsub(fmul(l, fsub(A[0], x)), A[1])
    return add


def engine(check):
    src = REPO + "/c/alt_bn128.cpp"
    mod = compile_ir(src, FLAGS("-I" + ROOT + "/drivers/altstubs", "-include", "cstdint", "-include", "cstring", "-include", "stdexcept", "-include", "misc.hpp"))
    m = Machine(mod)
    cl = RingClient(BNQ)
    install(m, cl, strings=num_strings)
    install_strings(m)
    install_split(m)
    s = m.new_state()
    init = [n for n in mod["functions"] if n.startswith("_GLOBAL__sub_I")]
    out = [x for x in m.run(s, init[0], []) if x.ended == "ret"]
    if len(out) != 1:
        raise Undecided("global initialisation has %d outcomes" % len(out))
    st = out[0]
    gl = {mod_dem(g): m.goid[g] for g in mod["globals"]}
    p = BNQ
    f1 = mk_add(p, lambda a, b: a * b % p, lambda a: pow(a, -1, p), lambda a, b: (a - b) % p, lambda a, b: (a + b) % p, 0)
    f2 = mk_add(p, f2mul, f2inv, lambda a, b: ((a[0] - b[0]) % p, (a[1] - b[1]) % p), lambda a, b: ((a[0] + b[0]) % p, (a[1] + b[1]) % p), (0, 0))
    offs = layout(src)

    def read(oid, off, n):
        return [int_of(elem(m, st, Ptr(oid, off + 32 * i), 32, "constant")) for i in range(n)]
    for nm, o1, o2 in (("globals", ("AltBn128::G1", 0), ("AltBn128::G2", 0)), ("Engine", ("AltBn128::Engine::engine", offs["g1"]), ("AltBn128::Engine::engine", offs["g2"]))):
        if o1[0] not in gl:
            check.error("global %s not found" % o1[0])
            continue
        a1, b1 = read(gl[o1[0]], o1[1] + offs["c1_fa"], 1)[0], read(gl[o1[0]], o1[1] + offs["c1_fb"], 1)[0]
        g1 = read(gl[o1[0]], o1[1] + offs["c1_one"], 4)
        gx, gy = g1[0], g1[1]
        w = "c/alt_bn128.cpp" if nm == "globals" else "c/alt_bn128.hpp Engine::Engine"
        check.check("bn254-constants", nm + " G1 coefficients", (a1, b1) == (0, 3), w, "a=%d b=%d" % (a1, b1))
        check.check("bn254-constants", nm + " G1 generator on curve", (gy * gy - gx ** 3 - a1 * gx - b1) % p == 0, w, "(%d,%d)" % (gx, gy))
        check.check("bn254-constants", nm + " G1 generator order r", ec_mul(BNR, (gx, gy), p, (f1,)) is None, w, "r*G is not the neutral element")
        a2 = tuple(read(gl[o2[0]], o2[1] + offs["c2_fa"], 2))
        b2 = tuple(read(gl[o2[0]], o2[1] + offs["c2_fb"], 2))
        g2 = read(gl[o2[0]], o2[1] + offs["c2_one"], 8)
        X, Y = tuple(g2[0:2]), tuple(g2[2:4])
        x3 = f2mul(f2mul(X, X), X)
        rhs = ((x3[0] + b2[0]) % p, (x3[1] + b2[1]) % p)
        check.check("bn254-constants", nm + " G2 twist coefficient is b/(9+u)", a2 == (0, 0) and f2mul(b2, (9, 1)) == (3, 0), w, "a=%s b=%s" % (a2, b2))
        check.check("bn254-constants", nm + " G2 generator on twist", f2mul(Y, Y) == rhs, w, "(%s,%s)" % (X, Y))
        check.check("bn254-constants", nm + " G2 generator order r", f2mul(Y, Y) == rhs and ec_mul(BNR, (X, Y), p, (f2,)) is None, w, "r*G2 is not the neutral element")
        STD = (10857046999023057135944570762232829481370756359578518086990519993285655852781, 11559732032986387107991004021392285783925812861821192530917403151452391805634,
               8495653923123431417604973247489272438418190587263600148770280649306958101930, 4082367875863433681332203403145435568316851327593401208105741076214120093531)
        check.check("bn254-constants", nm + " standard generators", (gx, gy) == (1, 2) and X + Y == STD, w, "non-standard generator")
    # quadratic extension of both instances is built with u^2 = -1
    for nm, oid, off in (("globals F2", gl.get("AltBn128::F2"), 0), ("Engine f2", gl.get("AltBn128::Engine::engine"), offs["f2"]), ("globals F6.F", gl.get("AltBn128::F6"), offs["f6_F"]), ("globals F12.F.F", gl.get("AltBn128::F12"), offs["f12_F"] + offs["f6_F"]), ("Engine f12.F.F", gl.get("AltBn128::Engine::engine"), offs["f12"] + offs["f12_F"] + offs["f6_F"])):
        if oid is None:
            continue
        v = read(oid, off + offs["f2_nr"], 1)[0]
        check.check("bn254-constants", nm + " non-residue", v == p - 1, "c/alt_bn128", "nr = %d" % v)


def int_of(r):
    if not r.n.is_const() or not r.d.is_const():
        raise Undecided("constant expected, got %r" % r)
    return r.n.cval() * pow(r.d.cval(), -1, BNQ) % BNQ


def mod_dem(g):
    r = subprocess.run(["c++filt", g], capture_output=True, text=True)
    return r.stdout.strip()


def layout(src):
    """member offsets, computed by the compiler (constant expressions in a driver TU)"""
    mod = compile_ir(ROOT + "/drivers/alt_layout.cpp", FLAGS("-I" + ROOT + "/drivers/altstubs", "-fno-access-control"))
    out = {}
    for g, d in mod["globals"].items():
        if g.startswith("L_"):
            out[g[2:]] = int(d["init"][2])
    return out


def obligations(check, tier):
    check.rule("ring-law", "each extension-field operation equals the extension's ring operation as a polynomial identity in the coordinates, for every aliasing of result and operands", 120)
    check.rule("operand-intact", "operands not aliased with the result keep their value", 60)
    check.rule("predicate", "isZero/isOne/eq return true exactly when every coordinate matches", 9)
    check.rule("constants", "zero, one and negOne hold the neutral, unit and negated unit element", 9)
    check.rule("defined-inputs", "no ring operation reads an element that was never written", 100)
    check.rule("frobenius", "Frobenius and FrobeniusP2 are the p and p^2 power maps on the BN254 tower", 8)
    check.assume += ["base-ring operations are exact (decided separately)", "u^2 = nr, v^3 = xi, w^2 = v with xi = 9 + u"]
    nr = S("nr")
    for tag, q, nz in (("nr symbolic", nr, [nr, nr - 1, nr + 1]), ("nr = -1", P(-1), []), ("nr = 0", P(0), []), ("nr = 1", P(1), [])):
        c = TCtx(2, q, nz)
        level_checks(check, 2, tag, c, q if not q.is_const() else q.cval())
        check.count("member functions analysed", len([f for f in c.m.visited_fns if "Field<" in c.mod["functions"][f]["dem"]]))
    for level, q in ((6, S("xi")), (12, S("tau"))):
        c = TCtx(level)
        level_checks(check, level, "", c, q)
        check.count("member functions analysed", len([f for f in c.m.visited_fns if "Field<" in c.mod["functions"][f]["dem"]]))
    frobenius(check)


def constants(check, tier):
    check.rule("bn254-constants", "literal curve and tower constants satisfy their defining equations over the BN254 base field, for the namespace globals and for Engine", 12)
    check.assume += ["BN254 base prime and group order as standardised"]
    engine(check)
    check.rule("frobenius", "the constants used by Frobenius and FrobeniusP2 make them the p and p^2 power maps of the sextic extension", 8)
    check.rule("defined-inputs", "no ring operation reads an element that was never written", 0)
    frobenius(check)
