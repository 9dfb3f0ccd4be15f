"""Number-theoretic transform: root tables, forward and inverse transforms, partition of the work over the pool."""
from absint import *
from sel import *
import mpz, ring
from naf import run_ctors
from report import REPO, ROOT

BN = 21888242871839275222246405745257275088548364400416034343698204186575808495617
BLS = 52435875175126190479447740508185965837690552500527637822603658699938581184513
SZ = 32


def load(*extra):
    return compile_ir(ROOT + "/drivers/fft_driver.cpp", ["-I" + ROOT + "/drivers/stubs", "-I" + REPO + "/c"] + list(extra))


def install_field(m, p):
    m.client = ring.RingClient(p)
    m.client_uninit = []
    m.field_calls = 0

    def h(mm, s, ins, a):
        dem = mm.mod["functions"][mm.val(s, ins["callee"]).name]["dem"]
        mo = re.match(r"^AbsFr::(~?\w+|operator=)\(", dem)
        if not mo:
            return NotImplemented
        op = mo.group(1)
        mm.field_calls += 1
        R = mm.client.red
        E = lambda i: ring.elem(mm, s, a[i], SZ, op)

        def const(v):
            k = ("K", v)
            if k not in s.tags:
                o = s.alloc(SZ, "field constant", "const")
                s.mem[o].cells[0] = (SZ, Rat(v % p))
                s.tags[k] = o
            return Ptr(s.tags[k], 0)
        if op in ("AbsFr", "operator="):
            return a[0] if op == "operator=" else None
        if op in ("zero", "one", "negOne"):
            return const({"zero": 0, "one": 1, "negOne": p - 1}[op])
        if op in ("add", "sub", "mul"):
            x, y = E(2), E(3)
            mm.store(s, a[1], SZ, R(x + y if op == "add" else x - y if op == "sub" else x * y))
        elif op in ("copy", "neg", "square"):
            x = E(2)
            mm.store(s, a[1], SZ, R(x if op == "copy" else -x if op == "neg" else x * x))
        elif op == "swap":
            x, y = E(1), E(2)
            mm.store(s, a[1], SZ, y)
            mm.store(s, a[2], SZ, x)
        elif op in ("inv", "div"):
            x, y = (Rat(1), E(2)) if op == "inv" else (E(2), E(3))
            if not y.n.is_const():
                raise Undecided("inverse of a non-constant")
            mm.store(s, a[1], SZ, R(x * Rat(pow(y.n.cval(), -1, p))))
        elif op in ("isZero", "isOne"):
            return int(mm.client.is_zero(mm, s, E(1) - Rat(op == "isOne")))
        elif op == "eq":
            return int(mm.client.is_zero(mm, s, R(E(1) - E(2))))
        elif op == "exp":
            x = E(2)
            n = a[4]
            e = 0
            for i in range(n):
                b = mm.load(s, Ptr(a[3].obj, padd(a[3].off, i)), 1, "i8")
                if not isinstance(b, int):
                    raise Undecided("exponent not constant")
                e |= b << (8 * i)
            if not x.n.is_const():
                raise Undecided("power of a non-constant")
            # the real exponentiation initialises the result before it reads the base for the last time
            mm.store(s, a[1], SZ, Rat(pow(x.n.cval(), e, p)))
        elif op == "fromUI":
            mm.store(s, a[1], SZ, Rat(a[2] % p))
        elif op == "fromMpz":
            mm.store(s, a[1], SZ, Rat(mm.mpz_get(mm, s, a[2]) % p))
        elif op == "toMpz":
            x = E(2)
            if not x.n.is_const():
                raise Undecided("toMpz of a non-constant")
            mm.mpz_put(mm, s, a[1], x.n.cval() % p)
        else:
            raise Undecided("field operation %s not modelled" % op)
        return None
    m.register(r"^AbsFr::", h)


class Ctx:
    def __init__(self, mod, p, T):
        self.p = p
        m = self.m = SelMachine(mod)
        install_field(m, p)
        mpz.install(m)
        m.install_omp(T)
        m.install_pool(T)
        self.heap = {}
        self.shift = []

        def ev(st, k, d):
            if k == "alloc":
                self.heap[d[0]] = m.where(st)
            elif k == "shift-overflow":
                self.shift.append((m.where(st), d))
        m.on_event = ev
        s = run_ctors(m, m.new_state())
        r = m.run(s, "d_size", [])
        self.s = r[0]
        self.size = r[0].result
        self.s.ended = None
        # the shared pool exists before the call
        self.obj = self.s.alloc(self.size, "FFT object", "heap")

    def call(self, fn, args):
        J = Merger(self.m)
        fin = J.run(self.s, fn, args)
        self.J = J
        if len(fin) != 1:
            raise Undecided("%d outcomes" % len(fin))
        st = fin[0]
        how = st.ended
        st.ended = None
        self.s = st
        return how, st.result

    def memory(self):
        m = self.m
        return ([(o[0], "access outside its buffer: " + o[1]) for o in m.oob] + [(u[0], "reads a value that was never written (%s)" % u[1]) for u in m.uninit] +
                m.client_uninit + m.mpz_bad + m.events + [(x[0], "shift by %s of a %s-bit word" % x[1][1:]) for x in self.shift])


def two_adicity(p):
    k = 0
    while (p - 1) >> k & 1 == 0:
        k += 1
    return k


def roots_of(c, s_):
    """the root table as the public accessor shows it"""
    out = []
    for i in range(1 << s_):
        ro = c.s.alloc(SZ, "out", "heap")
        how, _ = c.call("d_root", [Ptr(c.obj, 0), Ptr(ro, 0), s_, i])
        v = ring.elem(c.m, c.s, Ptr(ro, 0), SZ, "root")
        out.append(v.n.cval() % c.p if v.n.is_const() else None)
    return out


def ctors(check, mod, cfg):
    check.rule("roots", "the root table holds w^0..w^(2^s-1) for a w of order exactly 2^s", 8)
    check.rule("roots-limit", "a domain above the field's two-adicity is rejected with an exception, any other size is accepted", 3)
    check.rule("roots-tasks", "tasks that fill the table concurrently touch disjoint entries", 8)
    check.rule("transform-resources", "big integers are initialised, used and cleared in order on every exit, and tables are released with the object", 8)
    w = "c/fft.cpp FFT::FFT"
    for p, N, T in cfg:
        key = "field of %d bits, two-adicity %d, domain %d, threads %d" % (p.bit_length(), two_adicity(p), N, T)
        try:
            c = Ctx(mod, p, T)
            how, _ = c.call("d_ctor", [Ptr(c.obj, 0), N])
            ta = two_adicity(p)
            ln = max(N.bit_length() - 1, 0)
            if ln > max(ta, 1):
                check.check("roots-limit", key, how == "throw", w, "domain larger than the field supports is accepted (%s)" % how)
                left = c.s.tags.get("mpz", frozenset())
                check.check("transform-resources", key, not left, w, "%d GMP integers are never cleared when the domain is rejected" % len(left))
                continue
            if how == "abort":
                check.bad("roots", key, c.s.tags.get("abort", ("", w))[1], "the constructor aborts")
                continue
            if not check.check("roots-limit", key, how == "ret", w, "an admissible domain is rejected (%s)" % how):
                continue
            s_ = max(1, ln)
            rt = roots_of(c, s_)
            wv = rt[1]
            bad = [i for i, x in enumerate(rt) if x is None or wv is None or x != pow(wv, i, p)]
            for st in (c.s,):
                if st.tags.get("pend"):
                    bad.append("a task is still running when the constructor returns")
            if wv is not None and pow(wv, 1 << (s_ - 1), p) != p - 1:
                check.bad("roots", key, w, "the root does not have order 2^%d" % s_)
            elif bad:
                check.bad("roots", key, w, "entry %s is not the corresponding power of the root" % bad[0])
            else:
                check.ok("roots", key)
            cf = c.m.conflicts()
            if cf:
                a, b, o, x, y = cf[0]
                check.bad("roots-tasks", key, a, "%s of %s races with the %s at %s" % (x, o, y, b))
            else:
                check.ok("roots-tasks", key)
            held = [v for sz, v in c.s.mem[c.obj].cells.values() if isinstance(v, Ptr)]
            tabs = sorted({v.obj for v in held if v.obj in c.heap and c.s.mem[v.obj].alive})
            c.call("d_dtor", [Ptr(c.obj, 0)])
            mm = c.memory()
            left = c.s.tags.get("mpz", frozenset())
            alive = [c.heap[o] for o in tabs if c.s.mem[o].alive]
            if left:
                mm.append((w, "%d GMP integers are never cleared" % len(left)))
            if alive:
                mm.append((alive[0], "a table is not released with the object"))
            if mm:
                check.bad("transform-resources", key, mm[0][0], mm[0][1])
            else:
                check.ok("transform-resources", key)
            check.count("abstract steps", c.m.nsteps)
        except Undecided as e:
            check.undecided("roots", key, e)


def transforms(check, mod, cfg):
    check.rule("dft", "the forward transform of any input vector is its evaluation at the powers of the root", 6)
    check.rule("idft", "the inverse transform of any input vector is the interpolation, so inverse after forward is the identity", 6)
    check.rule("transform-tasks", "tasks running at the same time touch disjoint vector entries", 6)
    check.rule("transform-memory", "accesses stay inside the vector and the tables", 6)
    w = "c/fft.cpp"
    for p, N, n, T in cfg:
        for fn in ("d_fft", "d_ifft"):
            rule = "dft" if fn == "d_fft" else "idft"
            key = "n=%d domain %d field of %d bits threads %d" % (n, N, p.bit_length(), T)
            try:
                c = Ctx(mod, p, T)
                how, _ = c.call("d_ctor", [Ptr(c.obj, 0), N])
                if how != "ret":
                    check.undecided(rule, key, "constructor: %s" % how)
                    continue
                s_ = n.bit_length() - 1
                wv = roots_of(c, s_)[1] if s_ else 1
                ao = c.s.alloc(SZ * n, "vector", "heap")
                xs = [Poly.sym("a%d" % i) for i in range(n)]
                for i in range(n):
                    c.s.mem[ao].cells[SZ * i] = (SZ, Rat(xs[i]))
                c.m.log, c.m.conc = {}, set()
                c.shift.clear()
                how, _ = c.call(fn, [Ptr(c.obj, 0), Ptr(ao, 0), n])
                if how != "ret":
                    check.bad(rule, key, c.s.tags.get("abort", ("", w))[1], "does not return (%s)" % how)
                    continue
                if c.s.tags.get("pend"):
                    check.bad("transform-tasks", key, w, "returns while a task is still running")
                if wv is None:
                    check.undecided(rule, key, "root not constant")
                    continue
                wi = wv if rule == "dft" else pow(wv, -1, p)
                sc = 1 if rule == "dft" else pow(n, -1, p)
                bad = None
                for k in range(n):
                    got = ring.elem(c.m, c.s, Ptr(ao, SZ * k), SZ, "result")
                    want = P(0)
                    for i in range(n):
                        want = want + xs[i].scale(pow(wi, i * k, p) * sc % p)
                    if not (got.n - want).mod(p).is_zero() and bad is None:
                        bad = (k, got.n.mod(p), want.mod(p))
                if bad:
                    check.bad(rule, key, w, "output %d is %r, expected %r" % bad)
                else:
                    check.ok(rule, key)
                cf = c.m.conflicts()
                if cf:
                    a, b, o, x, y = cf[0]
                    check.bad("transform-tasks", key + " " + rule, a, "%s of %s races with the %s at %s" % (x, o, y, b))
                else:
                    check.ok("transform-tasks", key + " " + rule)
                mm = c.memory()
                if mm:
                    check.bad("transform-memory", key + " " + rule, mm[0][0], mm[0][1])
                else:
                    check.ok("transform-memory", key + " " + rule)
                check.count("field operations", c.m.field_calls)
            except Undecided as e:
                check.undecided(rule, key, e)


def bitrev(check, pows):
    check.rule("bit-reversal", "the reordering index reverses exactly the low bits of the position", 0)
    d = os.path.join(WORK, "br_%d.cpp" % os.getpid())
    os.makedirs(WORK, exist_ok=True)
    open(d, "w").write(open(ROOT + "/drivers/fft_driver.cpp").read() + '\nextern "C" uint64_t d_br(uint64_t x, uint64_t p) { return BR(x, p); }\n')
    try:
        mod = load_src(d)
    except CompileError:
        return
    for k in pows:
        m = Machine(mod)
        x, want = P(0), P(0)
        for i in range(k):
            b = Poly.sym("x.b%d" % i, 0, 1)
            x = x + b.scale(1 << i)
            want = want + b.scale(1 << (k - 1 - i))
        try:
            r = m.run(m.new_state(), "d_br", [simp(x), k])
            v = m.norm(r[0], r[0].result, 64, False)
            if len(r) != 1 or not isinstance(v, (int, Poly)):
                raise Undecided("index not tracked: %r" % (v,))
            check.check("bit-reversal", "width %d" % k, (P(v) - want).is_zero(), "c/fft.cpp BR", "index is %r" % P(v))
        except Undecided as e:
            check.undecided("bit-reversal", "width %d" % k, e)


def load_src(d):
    return compile_ir(d, ["-I" + ROOT + "/drivers/stubs", "-I" + REPO + "/c"])


def obligations(check, tier):
    t = tier == "thorough"
    mod = load()
    cfg = [(97, N, T) for N in (1, 2, 4, 8, 16, 32, 64) for T in (1, 3)] + [(BN, 8, T) for T in (2, 4, 5, 8, 9)] + [(BN, 16, 8), (BLS, 4, 4), (7, 2, 2), (7, 4, 2), (BN, 32, 24)]
    if t:
        cfg += [(q, N, T) for q in (17, 257, 193, 12289, BN, BLS) for N in (1, 2, 8, 32, 128) for T in range(1, 18, 2)]
    ctors(check, mod, cfg)
    tr = [(97, n, n, T) for n in (1, 2, 4, 8) for T in (1, 2, 3)] + [(BN, 16, 8, 2), (BLS, 16, 16, 4), (BN, 8, 2, 2), (BN, 8, 1, 2), (97, 4, 4, 8)]
    if t:
        tr += [(q, 2 * n, n, T) for q in (257, BN, BLS) for n in (1, 2, 4, 8, 16, 32) for T in (1, 2, 5, 16, 33)]
    transforms(check, mod, tr)
    bitrev(check, range(0, 33))
    check.assume += ["field arithmetic is exact (its own property)", "the vector length is a power of two not above the object's domain"]
