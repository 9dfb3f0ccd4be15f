"""Signed-digit recoding and the double-and-add / square-and-multiply loops built on it."""
import os, sys
from absint import *
from karr import *
import group
from poly import *
from report import REPO, ROOT, parallel

S = Poly.sym


def load():
    return compile_ir(ROOT + "/drivers/naf_driver.cpp", ["-I" + ROOT + "/drivers/stubs", "-I" + REPO + "/c"])


def bit(name, i):
    return Poly.sym("%s.b%d" % (name, i), 0, 1)


def byte_poly(name, i):
    r = Poly({})
    for k in range(8):
        r = r + bit(name, 8 * i + k).scale(1 << k)
    return r


def run_ctors(m, s):
    """constant-propagate the static initialisers (tables)"""
    for n in find_fn(m.mod, r"^_GLOBAL__sub_I|^__cxx_global_var_init"):
        if n.startswith("_GLOBAL__sub_I"):
            r = m.run(s, n, [])
            r = [x for x in r if x.ended == "ret"]
            if len(r) != 1:
                raise Undecided("static initialiser has %d outcomes" % len(r))
            s = r[0]
            s.ended = None
    return s


class BitMachine(Machine):
    """resolves table indexes by splitting on the choice symbols they consist of"""

    def offset(self, s, p):
        r = Machine.offset(self, s, p)
        if r is None and isinstance(p.off, Poly):
            lo, hi = self.rng(s, p.off)
            for sy in sorted(p.off.syms(), reverse=True):
                l, h = self.rng(s, Poly({((sy, 1),): 1}))
                if l is not None and h is not None and l < h and h - l <= 3:
                    if s.tags.get("forgot") and sy in s.tags["forgot"]:
                        raise Undecided("a merged choice is inspected again at %s" % self.where(s))
                    raise NeedFork(("ge0", Poly({((sy, 1),): 1}) - h))
        return r


def recode(check, mod, sizes):
    w = "c/naf.cpp buildNaf"
    for n in sizes:
        m = BitMachine(mod)
        s = run_ctors(m, m.new_state())
        so = s.alloc(n, "scalar", "input")
        for i in range(n):
            s.mem[so].cells[i] = (1, byte_poly("s", i))
        ro = s.alloc((n + 2) * 8, "naf", "heap")
        choice = {}
        for i in range(8 * n):
            choice[SY.by["s.b%d" % i]] = {0: 0, 1: 1}
        m.uninit = []
        NJ = NafJoin(m, choice, ro, n)
        key = "size %d" % n
        try:
            fin = NJ.run(s, "d_naf", [Ptr(ro, 0), Ptr(so, 0), n])
        except Undecided as e:
            check.undecided("naf-value", key, e)
            for o in m.oob[:1]:
                check.bad("naf-extent", key, o[0], "access outside its buffer: %s" % o[1])
            continue
        bad = False
        for o in m.oob[:1]:
            check.bad("naf-extent", key, o[0], "access outside its buffer: %s" % o[1])
            bad = True
        for u in m.uninit[:1]:
            check.bad("naf-extent", key, u[0], "reads an uninitialised value (%s)" % u[1])
            bad = True
        for st in fin:
            if st.ended != "ret":
                check.bad("naf-value", key, w, "does not return (%s)" % st.ended)
                continue
            NJ.fold(st)
            fx = NJ.fixed(st)
            miss = (n + 2) * 8 - len(st.tags["digits"])
            if miss and not bad:
                check.bad("naf-extent", key, w, "%d of the %d digit bytes are never written" % (miss, (n + 2) * 8))
            D = st.tags["D"]
            und = [i for i in range(8 * n) if SY.by["s.b%d" % i] not in st.tags["consumed"]]
            if st.tags["badd"]:
                check.bad("naf-digits", key, w, st.tags["badd"])
            elif st.tags["topd"] is not None:
                check.undecided("naf-value", key, "digit byte %s is not a constant" % st.tags["topd"])
                continue
            else:
                check.ok("naf-digits", key)
            if und:
                check.bad("naf-value", key, w, "bit %d of the scalar is not taken into account" % und[0])
            else:
                check.check("naf-value", key, D == 0, w, "digit sum minus scalar is %s" % fmtc(D))
        if not bad and fin:
            check.ok("naf-extent", key)
        check.count("recoder partitions (merged at loop heads)", NJ.nstates)


class NafJoin(Joiner):
    """merging for the digit transducer: the written digits and the fixed bits are folded into one exact integer
    D = (digits written) - (bits read); partitions merge when control, D and the still-visible state agree"""

    def __init__(self, m, choice, out, n):
        Joiner.__init__(self, m, choice, {})
        self.out = out
        self.n = n
        self.bitidx = {sy: int(SY.names[sy].split(".b")[1]) for sy in choice}

    def fold(self, s):
        t = s.tags
        if "D" not in t:
            t["D"], t["digits"], t["consumed"], t["badd"], t["topd"], t["prevnz"] = 0, frozenset(), frozenset(), "", None, frozenset()
        o = s.mem[self.out]
        dig = set(t["digits"])
        nz = set(t["prevnz"])
        for c, (sz, v) in sorted(o.cells.items()):
            if isinstance(v, tuple) and v and v[0] == "Z":
                v = 0
            v = subst_int(s, v, self.fixed(s))
            if not isinstance(v, int):
                t["topd"] = c
                continue
            for k in range(sz):
                b = (v >> (8 * k)) & 255
                if c + k in dig:
                    t["topd"] = c + k       # rewritten digit: not tracked
                dig.add(c + k)
                if b == 1:
                    t["D"] += 1 << (c + k)
                elif b == 2:
                    t["D"] -= 1 << (c + k)
                elif b:
                    t["badd"] = t["badd"] or "digit %d is %d" % (c + k, b)
                if b:
                    nz.add(c + k)
                    if c + k > 8 * self.n:
                        t["badd"] = t["badd"] or "digit above index %d is nonzero" % (8 * self.n)
                    if c + k - 1 in nz or c + k + 1 in nz:
                        t["badd"] = t["badd"] or "digits %d and its neighbour are both nonzero" % (c + k)
        s.w(self.out).cells = {}
        t["digits"] = frozenset(dig)
        mx = max(dig) if dig else 0
        t["prevnz"] = frozenset(x for x in nz if x >= mx - 8 and (x == mx))
        fx = self.fixed(s)
        con = set(t["consumed"])
        for sy, v in fx.items():
            if sy not in con:
                con.add(sy)
                t["D"] -= v << self.bitidx[sy]
        t["consumed"] = frozenset(con)

    def run(self, s, f, a):
        self.fold(s)
        return Joiner.run(self, s, f, a)

    def groupjoin(self, states, fxs, valss):
        st = states[0]
        drop = set()
        for f in fxs:
            drop |= set(f)
        for k in [k for k in st.bounds if any(sy in drop for m, c in k for sy, e in m)]:
            del st.bounds[k]
        st.known, st.facts = {}, []
        st.tags["forgot"] = frozenset(st.tags.get("forgot", frozenset())) | frozenset(drop)
        self.joined += len(states) - 1
        return [st]

    def prepare(self, s):
        self.fold(s)
        return Joiner.prepare(self, s)


def nafdigits(n):
    """admissible digit strings of all scalars of n bytes, n <= 1"""
    for v in range(256 if n == 1 else 1):
        d, x, k = {}, v, 0
        while x:
            if x & 1:
                z = 2 - (x & 3)
                d[k] = z
                x -= z
            x >>= 1
            k += 1
        yield d


def lin_loop(check, rule, key, m, fin, choice, base, want, get, w, feasible=None):
    """compare the final linear forms with the expected one"""
    for st in fin:
        if st.ended == "abort":
            check.bad(rule, key, w, "aborts at %s" % (st.tags.get("abort", ("", "?"))[1],))
            continue
        if st.ended != "ret":
            check.bad(rule, key, w, "does not return normally (%s)" % st.ended)
            continue
        try:
            got = get(st)
        except Undecided as e:
            check.undecided(rule, key, e)
            continue
        fx = fixed_choices(st, choice)
        sub = {}
        for sy, v in fx.items():
            if sy in choice:
                sub[choice[sy][1]] = P(choice[sy][0].get(v, 0))
        diff = (got.n - want.subst(sub)).subst(sub)
        if got.d != 1:
            check.undecided(rule, key, "non-integral form")
            continue
        diff = group.residual(st, diff)
        if diff.is_zero():
            check.ok(rule, key)
        elif feasible is not None and not feasible(diff, fx):
            check.undecided(rule, key, "mismatch only on digit strings the recoder never emits")
        else:
            check.bad(rule, key, w, "computes %r, expected %r (difference %r)" % (got, want.subst(sub), diff))


def muls(check, mod, sizes):
    w = "c/exp.hpp nafMulByScalar"
    for n in sizes:
        for kind in ("J", "A") + (("CJ", "CA") if n == 1 else ()):
            for alias in ([0, 1] if kind[-1] == "J" else [0]):
                m = Machine(mod)
                group.install(m)
                events = []
                m.on_event = lambda s, k, d: None
                choice, ds, pub = {}, {}, {}
                want = Poly({})
                B = S("B")
                for k in range(8 * n + 1 if n else 0):
                    sy = SY.new("naf%d" % k, 0, 2)
                    dsy = SY.new("delta%d" % k)
                    choice[sy] = {0: 0, 1: 1, 2: -1}
                    ds[sy] = dsy
                    pub[sy] = ({0: 0, 1: 1, 2: -1}, dsy)
                    want = want + Poly({((dsy, 1),): 1 << k}) * B
                sizes_seen = []

                def build(mm, s, ins, a):
                    r, sc, cnt = a
                    if not isinstance(r, Ptr) or r.off != 0 or cnt != n:
                        raise Undecided("recoder called with unexpected arguments")
                    o = s.w(r.obj)
                    sizes_seen.append((mm.where(s), o.size))
                    for k in range((n + 2) * 8):
                        if o.size is not None and k < o.size:
                            o.cells[k] = (1, Poly.sym("naf%d" % k, 0, 2) if n and k <= 8 * n else 0)
                    return None
                m.register(r"^buildNaf\(", build)
                s = m.new_state()
                g = s.alloc(8, "group", "heap")
                so = s.alloc(n, "scalar", "input")
                ro = s.alloc(128, "r", "heap")
                if alias:
                    bo = ro
                else:
                    bo = s.alloc(128 if kind[-1] == "J" else 64, "base", "heap")
                s.mem[bo].cells[0] = (128 if kind[-1] == "J" else 64, Rat(B))
                frees = {}

                def ev(st, k, d):
                    if k == "alloc":
                        st.tags[("heap", d[0])] = 1
                    elif k == "free" and isinstance(d[0], Ptr):
                        st.tags[("heap", d[0].obj)] = 0
                m.on_event = ev
                key = "size %d base %s%s%s" % (n, kind[-1], " through the curve" if len(kind) > 1 else "", " aliased" if alias else "")
                J = Joiner(m, choice, ds)
                try:
                    fin = J.run(s, "d_mul_" + kind, [Ptr(g, 0), Ptr(ro, 0), Ptr(bo, 0), Ptr(so, 0), n])
                except Undecided as e:
                    check.undecided("scalar-mul", key, e)
                    for o in m.oob[:1]:
                        check.bad("scalar-mul-memory", key, o[0], "access outside its buffer: %s" % o[1])
                    continue

                def feas(diff, fx):
                    for d in nafdigits(1):
                        if n == 1 and all(choice[sy][v] == d.get(int(SY.names[sy][3:]), 0) for sy, v in fx.items() if sy in choice):
                            sub = {ds[sy]: P(d.get(int(SY.names[sy][3:]), 0)) for sy in choice}
                            if not diff.subst(sub).is_zero():
                                return True
                    return n != 1
                lin_loop(check, "scalar-mul", key, m, fin, pub, B, want, lambda st: group.elem(m, st, Ptr(ro, 0), 128, "result"), w, feas)
                bad = [(o[0], o[1]) for o in m.oob] + [(u[0], u[1]) for u in m.uninit] + m.client_uninit
                for wh, sz in sizes_seen[:1]:
                    if sz is not None and sz < (n + 2) * 8:
                        bad.append((wh, "digit buffer has %s bytes, the recoder writes %d" % (sz, (n + 2) * 8)))
                leak = [k for st in fin for k, v in st.tags.items() if isinstance(k, tuple) and k[0] == "heap" and v]
                if leak:
                    bad.append((w, "the digit buffer is not released"))
                if not sizes_seen:
                    check.undecided("scalar-mul-memory", key, "recoder not called")
                elif bad:
                    check.bad("scalar-mul-memory", key, bad[0][0], str(bad[0][1]))
                else:
                    check.ok("scalar-mul-memory", key)
                check.count("scalar-mul partitions", J.nstates)


def f12exp(check, mod, sizes):
    w = "c/f12field.cpp exp"
    for n in sizes:
        for alias in (0, 1):
            m = Machine(mod)
            m.client = group.GroupClient()
            m.client_uninit = []
            SZ = 384

            def h(mm, s, ins, a):
                dem = mm.mod["functions"][mm.val(s, ins["callee"]).name]["dem"]
                op = re.match(r".*F12Field<AbsF6>::(\w+)\(", dem).group(1)
                if op == "exp":
                    return NotImplemented
                E = lambda p: group.elem(mm, s, p, SZ, op)
                if op in ("one",):
                    key = ("K", op)
                    if key not in s.tags:
                        s.tags[key] = s.alloc(SZ, "one", "const")
                        s.mem[s.tags[key]].cells[0] = (SZ, Rat(0))
                    return Ptr(s.tags[key], 0)
                if op in ("mul", "div"):
                    x, y = E(a[2]), E(a[3])
                    mm.store(s, a[1], SZ, x + y if op == "mul" else x - y)
                    return None
                if op in ("square", "copy", "inv"):
                    x = E(a[2])
                    mm.store(s, a[1], SZ, {"square": x + x, "copy": x, "inv": -x}[op])
                    return None
                if op == "isOne":
                    return int(mm.client.is_zero(mm, s, E(a[1])))
                if op == "eq":
                    return int(mm.client.is_zero(mm, s, E(a[1]) - E(a[2])))
                if mm.mod["functions"][mm.val(s, ins["callee"]).name]["decl"]:
                    raise Undecided("field operation %s in exp" % op)
                return NotImplemented
            m.register(r"^(void|bool|.*&)?\s*F12Field<AbsF6>::\w+\(", h)
            choice, ds, pub = {}, {}, {}
            B = S("B")
            want = Poly({})
            for k in range(8 * n):
                bit("e", k)
                sy = SY.by["e.b%d" % k]
                dsy = SY.new("beta%d" % k)
                choice[sy], ds[sy], pub[sy] = {0: 0, 1: 1}, dsy, ({0: 0, 1: 1}, dsy)
                want = want + Poly({((dsy, 1),): 1 << k}) * B
            s = m.new_state()
            so = s.alloc(n, "scalar", "input")
            for i in range(n):
                s.mem[so].cells[i] = (1, byte_poly("e", i))
            fo = s.alloc(8192, "field", "heap")
            ro = s.alloc(SZ, "r", "heap")
            bo = ro if alias else s.alloc(SZ, "a", "heap")
            s.mem[bo].cells[0] = (SZ, Rat(B))
            key = "size %d%s" % (n, " aliased" if alias else "")
            J = Joiner(m, choice, ds)
            try:
                fin = J.run(s, "d_f12exp", [Ptr(fo, 0), Ptr(ro, 0), Ptr(bo, 0), Ptr(so, 0), n])
            except Undecided as e:
                check.undecided("f12-exp", key, e)
                continue
            for o in m.oob[:1]:
                check.bad("f12-exp", key + " bounds", o[0], o[1])
            lin_loop(check, "f12-exp", key, m, fin, pub, B, want, lambda st: group.elem(m, st, Ptr(ro, 0), SZ, "result"), w)


MODS = {}


def unit(check, tier, u):
    kind, n = u
    if kind == "naf":
        recode(check, MODS["nmod"], (n,))
    elif kind == "mul":
        muls(check, MODS["mod"], (n,))
    else:
        f12exp(check, MODS["mod"], (n,))


def obligations(check, tier):
    mod = load()
    t = tier == "thorough"
    nmod = compile_ir(REPO + "/c/naf.cpp", ["-I" + REPO + "/c"])
    dr = os.path.join(WORK, "naf_all_%d.cpp" % os.getpid())
    open(dr, "w").write('#include "%s/c/naf.cpp"\nextern "C" void d_naf(uint8_t *r, uint8_t *s, unsigned n) { buildNaf(r, s, n); }\n' % REPO)
    nmod = compile_ir(dr, ["-I" + REPO + "/c"])
    check.rule("naf-value", "the emitted signed digits sum to the scalar: sum d_k 2^k = sum b_k 2^k on every partition", 3)
    check.rule("naf-digits", "every emitted digit is 0, 1 or 2 (= -1), adjacent digits are never both nonzero, and no digit is set above index 8*size", 3)
    check.rule("naf-extent", "the recoder reads only the scalar's bytes and writes exactly the (size+2)*8 digit bytes", 3)
    check.rule("scalar-mul", "scalar multiplication returns sum(d_k 2^k) * base for every digit string, base and result may be one object", 4)
    check.rule("scalar-mul-memory", "digit accesses stay inside the digit buffer, which is sized (size+2)*8 and released", 4)
    check.rule("f12-exp", "dodecic exponentiation returns base^(sum b_k 2^k) for every scalar, also when result and base are one object", 2)
    MODS.update(mod=mod, nmod=nmod)
    units = [("exp", n) for n in ((1, 2, 3, 4, 8, 32, 96) if t else (1, 2, 3, 8, 32))]
    units += [("mul", n) for n in ((0, 1, 2, 3, 4, 8, 17, 32) if t else (0, 1, 2, 3, 8, 32))]
    units += [("naf", n) for n in ((0, 1, 2, 3, 4, 8, 32, 48) if t else (0, 1, 2, 3, 4, 8))]
    parallel(check, unit, sorted(units, key=lambda u: -u[1]))
    check.assume += ["group law and field operations are exact (decided by their own properties)"]
