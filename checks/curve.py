"""Elliptic-curve group law: every Curve<> operation is value-numbered over an opaque field and compared, as a
polynomial identity, with the affine chord-tangent law, for every operand class, representation and aliasing."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from absint import *
from ring import *
from report import REPO, ROOT

SZ = {"J": 128, "A": 64}
ES = 32
S = Poly.sym
aP, bP = S("a"), S("b")


def load_mod(flags=()):
    return compile_ir(ROOT + "/drivers/curve_driver.cpp", ["-I" + ROOT + "/drivers/stubs", "-I" + REPO + "/c"] + list(flags))


def point(kind, i, cls):
    """abstract coordinates of operand i; cls: 'p' generic finite point with affine (x,y), 'o' the neutral element"""
    if cls == "o":
        if kind == "A":
            return [P(0), P(0)], []
        x = S("X%d" % i)
        return [x, S("Y%d" % i), P(0), P(0)], [x]
    x, y, nz = cls
    if kind == "A":
        return [x, y], list(nz)
    z = S("z%d" % i)
    return [x * z * z, y * z * z * z, z * z, z * z * z], list(nz) + [z]


def cases2():
    x1, y1, x2, y2 = S("x1"), S("y1"), S("x2"), S("y2")
    z = P(0)
    O = "o"
    g1 = (x1, y1, [x1])
    g2 = (x2, y2, [x2])
    return [
        ("distinct points", g1, g2, [x2 - x1], "add"),
        ("distinct points, first x = 0", (z, y1, [y1]), g2, [x2], "add"),
        ("distinct points, second x = 0", g1, (z, y2, [y2]), [x1], "add"),
        ("equal points", g1, g1, [y1], "dbl"),
        ("equal points with x = 0", (z, y1, [y1]), (z, y1, [y1]), [y1], "dbl"),
        ("equal 2-torsion points", (x1, z, [x1]), (x1, z, [x1]), [], "inf"),
        ("opposite points", g1, (x1, -y1, [x1]), [y1], "inf"),
        ("neutral + point", O, g2, [], "second"),
        ("neutral + 2-torsion point", O, (x2, z, [x2]), [], "second"),
        ("neutral + point with x = 0", O, (z, y2, [y2]), [], "second"),
        ("point + neutral", g1, O, [], "first"),
        ("2-torsion point + neutral", (x1, z, [x1]), O, [], "first"),
        ("point with x = 0 + neutral", (z, y1, [y1]), O, [], "first"),
        ("neutral + neutral", O, O, [], "inf"),
    ]


def cases1():
    x1, y1 = S("x1"), S("y1")
    z = P(0)
    return [("finite point", (x1, y1, [x1, y1])), ("point with x = 0", (z, y1, [y1])),
            ("2-torsion point", (x1, z, [x1])), ("neutral element", "o")]


def acurves():
    return [("a symbolic", aP, [aP, aP - 1, aP + 1]), ("a = 0", P(0), []), ("a = 1", P(1), []), ("a = -1", P(-1), [])]


def expect_add(c1, c2, kind, a):
    if kind == "inf":
        return None
    if kind == "first":
        return c1[0], c1[1]
    if kind == "second":
        return c2[0], c2[1]
    x1, y1, x2, y2 = c1[0], c1[1], c2[0], c2[1]
    lam = Rat(y2 - y1, x2 - x1) if kind == "add" else Rat(x1 * x1 * 3 + a, y1 * 2)
    x3 = lam * lam - x1 - x2
    return x3, lam * (Rat(x1) - x3) - y1


class Ctx:
    def __init__(self, mod, a, nza):
        self.mod = mod
        self.m = Machine(mod)
        self.cl = RingClient()
        install(self.m, self.cl)
        self.nza = list(nza)
        s = self.m.new_state()
        r = self.m.run(s, "d_size", [])
        size = r[0].result
        s = self.m.new_state()
        s.tags["nz"] = tuple(nza)
        self.cobj = s.alloc(size, "curve", "heap")
        f = s.alloc(8, "field", "heap")
        ps = []
        for nm, v in (("a", a), ("b", bP), ("gx", S("gx")), ("gy", S("gy"))):
            o = s.alloc(ES, nm, "heap")
            s.mem[o].cells[0] = (ES, Rat(v))
            ps.append(Ptr(o, 0))
        out = self.m.run(s, "d_ctor", [Ptr(self.cobj, 0), Ptr(f, 0)] + ps)
        out = [x for x in out if x.ended == "ret"]
        if len(out) != 1:
            raise Undecided("curve constructor has %d outcomes" % len(out))
        self.base = out[0]
        self.base.ended = None
        self.base.facts = []


def run_op(ctx, fname, kinds, alias, coords, nz):
    """alias: list mapping parameter index -> object group.  Returns (machine, finals, object ids per parameter)."""
    m = ctx.m
    m.client_uninit = []
    m.oob = []
    m.divisors = []
    s = ctx.base.clone()
    s.tags["nz"] = tuple(ctx.nza) + tuple(nz)
    objs = {}
    ptrs = []
    for i, (k, g) in enumerate(zip(kinds, alias)):
        if g not in objs:
            objs[g] = s.alloc(SZ[k], "operand%d" % i, "heap")
        o = objs[g]
        if coords[i] is not None:
            for j, v in enumerate(coords[i]):
                s.mem[o].cells[j * ES] = (ES, Rat(v))
        ptrs.append(Ptr(o, 0))
    fin = m.run(s, fname, [Ptr(ctx.cobj, 0)] + ptrs)
    return m, fin, ptrs


def coordsof(m, st, p, k):
    return [elem(m, st, Ptr(p.obj, p.off + i * ES), ES, "result") for i in range(len_of(k))]


def len_of(k):
    return 4 if k == "J" else 2


def judge_point(cl, m, st, res, k, want):
    """None if res (abstract coordinates) denotes the point `want` (None = neutral), else a description"""
    zfact = [z for z in st.zero]

    def iszero(v):
        if v.n.is_zero():
            return True
        for z in zfact:
            if v.n.divexact(z) is not None:
                return True
        return False

    def nonzero(v):
        return cl.factor_nonzero(st, v.n)
    if k == "A":
        if want is None:
            if iszero(res[0]) and iszero(res[1]):
                return None
            return "neutral element expected, got affine (%r, %r)" % (res[0], res[1])
        for nm, g, w in (("x", res[0], want[0]), ("y", res[1], want[1])):
            if not iszero(Rat(g.num_eq(w))):
                return "%s coordinate: got %r, expected %r" % (nm, g, w)
        return None
    X, Y, ZZ, ZZZ = res
    if want is None:
        if iszero(ZZ):
            if not iszero(ZZZ):
                return "neutral element with zz = 0 but zzz = %r" % (ZZZ,)
            return None
        return "neutral element expected (zz = 0), got zz = %r" % (ZZ,)
    if iszero(ZZ):
        return "finite point expected, got zz = 0"
    if not iszero(Rat((ZZ * ZZ * ZZ).num_eq(ZZZ * ZZZ))):
        return "zz^3 <> zzz^2 (zz = %r, zzz = %r)" % (ZZ, ZZZ)
    for nm, g, d, w in (("x", X, ZZ, want[0]), ("y", Y, ZZZ, want[1])):
        if not iszero(Rat(g.num_eq(d * w))):
            return "%s coordinate: %r over %r is not %r" % (nm, g, d, w)
    if not nonzero(ZZ):
        return "UNDEC zz = %r not shown nonzero" % (ZZ,)
    return None


def fline(mod, cls_pat):
    n = find_fn(mod, cls_pat)
    if n:
        d = mod["functions"][n[0]]
        return "%s:%s" % (os.path.basename(d.get("file", "")), d.get("line"))
    return "curve"


def where_of(mod, fname):
    """source location of the Curve member a driver calls"""
    for b in mod["functions"][fname]["blocks"]:
        for i in b:
            if i["op"] in ("call", "invoke") and i["callee"][0] == "f":
                d = mod["functions"].get(i["callee"][1])
                if d and "Curve<" in d["dem"]:
                    return "%s:%s %s" % (os.path.basename(d.get("file", "curve.cpp")), d.get("line"), d["dem"].split("(")[0])
    return "c/curve.cpp"


def obligations(check, tier):
    mod = load_mod()
    check.rule("group-law", "the result point of add/sub/dbl equals the affine chord-tangent law as a polynomial identity; result keeps zz^3 = zzz^2 and zz is nonzero", 200)
    check.rule("operand-intact", "operands not aliased with the result keep their value", 100)
    check.rule("conversion", "copy/neg convert between representations preserving the point (neutral element included)", 30)
    check.rule("predicate", "eq/isZero return true exactly when the points are equal / neutral", 20)
    check.rule("defined-inputs", "no field operation reads an element that was never written", 1)
    check.rule("nonzero-divisor", "field division is only reached with a divisor shown nonzero", 4)
    check.rule("construct", "the constructor stores a, b, the generator and both neutral representations", 8)
    check.assume += ["field operations are exact ring operations (decided separately for the generated field)", "characteristic > 3", "the affine pair (0,0) is not on the curve (b <> 0)", "a neutral XYZZ operand has x <> 0 when it is the right operand of eq (all library operations produce such)"]
    for anm, a, nza in acurves():
        ctx = Ctx(mod, a, nza)
        m, st = ctx.m, ctx.base
        w = where_of(mod, "d_ctor")
        # construction
        def chk(fn, n, want):
            r = m.run(ctx.base.clone(), fn, [Ptr(ctx.cobj, 0)])
            if len(r) != 1 or not isinstance(r[0].result, Ptr):
                check.undecided("construct", fn, "no unique result")
                return
            p = r[0].result
            got = [elem(m, r[0], Ptr(p.obj, p.off + i * ES), ES, fn) for i in range(n)]
            check.check("construct", "%s %s" % (fn, anm), all(g == x for g, x in zip(got, want)), w, "%s is %r, expected %r" % (fn, got, want))
        chk("d_a", 1, [a])
        chk("d_b", 1, [bP])
        chk("d_one", 4, [S("gx"), S("gy"), P(1), P(1)])
        chk("d_oneA", 2, [S("gx"), S("gy")])
        chk("d_zeroA", 2, [P(0), P(0)])
        r = m.run(ctx.base.clone(), "d_zero", [Ptr(ctx.cobj, 0)])
        zc = coordsof(m, r[0], r[0].result, "J")
        check.check("construct", "zero " + anm, zc[2].n.is_zero() and zc[3].n.is_zero() and cl_nonzero(ctx.cl, st, zc[0]), w, "neutral element is %r" % zc)
        # binary operations
        for op in ("add", "sub"):
            for ks in ("JJJ", "JJA", "JAA", "JAJ", "AJJ", "AJA", "AAA", "AAJ"):
                fn = "d_%s_%s" % (op, ks)
                als = [(0, 1, 2)]
                if ks[0] == ks[1]:
                    als.append((0, 0, 2))
                if ks[0] == ks[2]:
                    als.append((0, 1, 0))
                if ks[1] == ks[2]:
                    als.append((0, 1, 1))
                    if ks[0] == ks[1]:
                        als.append((0, 0, 0))
                for cn, c1, c2, nz, kind in cases2():
                    if op == "sub" and c2 != "o":
                        c2s = (c2[0], -c2[1], c2[2])
                    else:
                        c2s = c2
                    for al in als:
                        if al[1] == al[2]:
                            if op == "add" and kind not in ("dbl",) and cn not in ("equal 2-torsion points", "neutral + neutral"):
                                continue
                            if op == "sub":
                                if cn not in ("opposite points", "equal 2-torsion points", "neutral + neutral"):
                                    continue
                        p1, n1 = point(ks[1], 1, c1)
                        p2, n2 = point(ks[2], 1 if al[1] == al[2] else 2, c2s)
                        want = expect_add(c1, c2, kind, a)
                        key = "%s(%s<-%s,%s) %s, %s, alias %s" % (op, ks[0], ks[1], ks[2], cn, anm, al)
                        one(check, ctx, mod, fn, ks, al, [None if al[0] not in (al[1], al[2]) else None, p1, p2], n1 + n2 + nz, want, key, "group-law")
        for op in ("dbl", "neg", "copy"):
            for ks in ("JJ", "JA", "AJ", "AA"):
                fn = "d_%s_%s" % (op, ks)
                for cn, c1 in cases1():
                    for al in [(0, 1)] + ([(0, 0)] if ks[0] == ks[1] else []):
                        p1, n1 = point(ks[1], 1, c1)
                        if c1 == "o":
                            want = None
                        elif op == "copy":
                            want = (c1[0], c1[1])
                        elif op == "neg":
                            want = (c1[0], -c1[1])
                        elif cn == "2-torsion point":
                            want = None
                        else:
                            want = expect_add(c1, c1, "dbl", a)
                        key = "%s(%s<-%s) %s, %s, alias %s" % (op, ks[0], ks[1], cn, anm, al)
                        one(check, ctx, mod, fn, ks, al, [None, p1], n1, want, key, "group-law" if op == "dbl" else "conversion")
        if anm != "a symbolic":
            continue
        for ks in ("JJ", "JA", "AJ", "AA"):
            fn = "d_eq_" + ks
            for cn, c1, c2, nz, kind in cases2():
                want = int(kind == "dbl" or cn == "equal 2-torsion points" or cn == "neutral + neutral")
                for same in ([0, 1] if ks[0] == ks[1] and want else [0]):
                    p1, n1 = point(ks[0], 1, c1)
                    p2, n2 = point(ks[1], 1 if same else 2, c2)
                    pred(check, ctx, mod, fn, ks, (0, 0) if same else (0, 1), [p1, p2], n1 + n2 + nz, want, "eq(%s,%s) %s%s" % (ks[0], ks[1], cn, " same object" if same else ""))
        for k in "JA":
            for cn, c1 in cases1():
                p1, n1 = point(k, 1, c1)
                pred(check, ctx, mod, "d_isZero_" + k, k, (0,), [p1], n1, int(c1 == "o"), "isZero(%s) %s" % (k, cn))
    check.count("curve member functions analysed", len([f for f in ctx.m.visited_fns if "Curve" in mod["functions"][f]["dem"]]))
    if ctx.m.unmodelled:
        check.notes.append("unmodelled callees: %s" % sorted(ctx.m.unmodelled)[:10])


def cl_nonzero(cl, st, v):
    return cl.factor_nonzero(st, v.n)


def one(check, ctx, mod, fn, ks, al, coords, nz, want, key, rule):
    w = where_of(mod, fn)
    try:
        m, fin, ptrs = run_op(ctx, fn, ks, al, coords, nz)
    except Undecided as e:
        check.undecided(rule, key, e)
        return
    for u in m.client_uninit:
        check.bad("defined-inputs", u[1][:60] + " " + key.split(" ")[0], u[0], u[1])
    if m.oob:
        check.bad("defined-inputs", "bounds " + key, m.oob[0][0], str(m.oob[0]))
    check.ok("defined-inputs", key) if not m.client_uninit and not m.oob else None
    for wh, d, st in m.divisors:
        nzok = ctx.cl.factor_nonzero(st, d.n)
        if not nzok and d.n.is_zero():
            check.bad("nonzero-divisor", key, wh, "division by zero")
        elif nzok:
            check.ok("nonzero-divisor", key)
        else:
            check.undecided("nonzero-divisor", key, "divisor %r" % d)
    n = 0
    for st in fin:
        if st.ended != "ret":
            check.bad(rule, key, w, "the operation does not return (%s)" % st.ended)
            continue
        n += 1
        try:
            res = coordsof(m, st, ptrs[0], ks[0])
        except Undecided as e:
            check.undecided(rule, key, e)
            continue
        msg = judge_point(ctx.cl, m, st, res, ks[0], want)
        if msg is None:
            check.ok(rule, key)
        elif msg.startswith("UNDEC"):
            check.undecided(rule, key, msg)
        elif feasible_unknown(st):
            check.undecided(rule, key, msg + " under undecided branch facts " + str(st.zero))
        else:
            check.bad(rule, key, w, msg)
        for i in range(1, len(ks)):
            if al[i] == al[0]:
                continue
            try:
                now = coordsof(m, st, ptrs[i], ks[i])
            except Undecided as e:
                check.undecided("operand-intact", key, e)
                continue
            okk = all((x.num_eq(y)).is_zero() for x, y in zip(now, coords[i]))
            check.check("operand-intact", key + " operand %d" % i, okk, w, "operand changed to %r" % now)
    check.count("abstract partitions", n)


def feasible_unknown(st):
    return bool(st.zero)


def pred(check, ctx, mod, fn, ks, al, coords, nz, want, key):
    w = where_of(mod, fn)
    try:
        m, fin, ptrs = run_op(ctx, fn, ks, al, coords, nz)
    except Undecided as e:
        check.undecided("predicate", key, e)
        return
    for u in m.client_uninit:
        check.bad("defined-inputs", u[1][:60] + " " + key, u[0], u[1])
    for st in fin:
        if st.ended != "ret" or not isinstance(st.result, int):
            check.undecided("predicate", key, "result %r" % (st.result,))
        elif (st.result != 0) == bool(want):
            check.ok("predicate", key)
        elif st.zero:
            check.undecided("predicate", key, "returns %d under facts %s" % (st.result, st.zero))
        else:
            check.bad("predicate", key, w, "returns %d, expected %d" % (st.result, want))
