"""Multi-scalar multiplication: windowed buckets with OpenMP (multiexp) and signed-digit buckets on the pool (MSM)."""
import os
from absint import *
from sel import *
import group
from naf import byte_poly, run_ctors
from report import REPO, ROOT

FL = ["-I" + ROOT + "/drivers/stubs", "-I" + REPO + "/c"]


def load(*extra):
    return compile_ir(ROOT + "/drivers/msm_driver.cpp", FL + list(extra))


def mul_by_scalar(m, s, a, tys):
    n = a[3]
    if not isinstance(n, int):
        raise Undecided("scalar size of the single-point case is not constant")
    v = P(0)
    for i in range(n):
        b = m.load(s, Ptr(a[2].obj, padd(a[2].off, i)), 1, "i8")
        if not isinstance(b, (int, Poly)):
            raise Undecided("scalar byte not tracked")
        v = v + P(b).scale(1 << (8 * i))
    base = group.elem(m, s, a[1], group.SIZES[tys[1]], "mulByScalar")
    m.store(s, a[0], group.SIZES[tys[0]], Rat(v * base.n))
    return None


class Run:
    """one abstract run of an entry point over symbolic scalars and bases"""

    def __init__(self, mod, fn, n, S, T, nsym=None, xs=None, explicit=0):
        m = self.m = SelMachine(mod)
        group.install(m, mul_by_scalar)
        m.install_omp(T)
        m.install_pool(T)
        self.shift = []
        self.heap = {}

        def ev(st, k, d):
            if k == "shift-overflow":
                self.shift.append((m.where(st), d))
            elif k == "alloc":
                self.heap[d[0]] = m.where(st)
        m.on_event = ev
        s = run_ctors(m, m.new_state())
        g = s.alloc(8, "group", "heap")
        so = s.alloc(n * S, "scalars", "input")
        bo = s.alloc(64 * n, "bases", "input")
        self.ro = s.alloc(128, "r", "heap")
        self.want = P(0)
        self.bits = set()
        for i in range(n):
            B = Poly.sym("B%d" % i)
            s.mem[bo].cells[64 * i] = (64, Rat(B))
            for j in range(S):
                if nsym is not None and i >= nsym:
                    s.mem[so].cells[i * S + j] = (1, 0)
                    continue
                b = byte_poly("s%d" % i, j)
                s.mem[so].cells[i * S + j] = (1, b)
                self.bits |= b.syms()
                if xs is None or i // len(xs) < xs[i % len(xs)]:
                    self.want = self.want + b.scale(1 << (8 * j)) * B
        a = [Ptr(g, 0), Ptr(self.ro, 0), Ptr(bo, 0), Ptr(so, 0), S, n]
        if xs is not None:
            xo = s.alloc(8 * len(xs), "x", "input")
            for i, x in enumerate(xs):
                s.mem[xo].cells[8 * i] = (8, x)
            a += [len(xs), Ptr(xo, 0)]
        if not fn.endswith("_msm"):
            a.append(explicit)
        self.heap.clear()
        self.J = Merger(m)
        self.fin, self.err = [], None
        try:
            self.fin = self.J.run(s, fn, a)
        except Undecided as e:
            self.err = e

    def report(self, check, pre, key, w):
        m = self.m
        val, mem = pre + "-sum", pre + "-memory"
        if self.err is not None:
            check.undecided(val, key, self.err)
        bad = [(o[0], "access outside its buffer: " + o[1]) for o in m.oob] + [(u[0], "reads a value that was never written (%s)" % u[1]) for u in m.uninit] + m.client_uninit
        bad += [(x[0], "shift by %s of a %s-bit word" % (x[1][1], x[1][2])) for x in self.shift]
        for e in m.events:
            bad.append(e)
        for st in self.fin:
            if st.ended != "ret":
                check.bad(val, key, st.tags.get("abort", ("", w))[1], "does not return (%s)" % st.ended)
                continue
            for p in st.tags.get("pend", ()):
                bad.append((w, "returns while a pool task is still running"))
            for oid, wh in self.heap.items():
                o = st.mem.get(oid)
                if o is not None and o.alive and "ThreadPool" not in wh and "vector" not in wh and "ThreadPool" not in o.name:
                    if not self.static(st, oid):
                        bad.append((wh, "a buffer is not released"))
            try:
                got = group.elem(m, st, Ptr(self.ro, 0), 128, "result")
            except Undecided as e:
                check.undecided(val, key, e)
                continue
            d = sred(got.n - self.want)
            d = group.residual(st, d)
            ind = self.J.ind(list(st.tags.get("path", {}).values()))
            d = normal(m, st, sred(d * ind))
            if d.is_zero():
                check.ok(val, key)
                continue
            wt = witness(d, self.bits)
            if wt is None:
                check.undecided(val, key, "difference %r not normalised" % d)
                continue
            v, b, x = wt
            sc = {}
            for sy, bit in v.items():
                nm, k = SY.names[sy].split(".b")
                sc[nm] = sc.get(nm, 0) | bit << int(k)
            pt = "*".join(SY.names[z[0]] for z in b) or "1"
            txt = ", ".join("%s=0x%x" % kv for kv in sorted(sc.items())[:4])
            check.bad(val, key, w, "for scalars %s the coefficient of %s is off by %d" % (txt, pt, x))
        if bad:
            check.bad(mem, key, bad[0][0], str(bad[0][1]))
        elif self.fin:
            check.ok(mem, key)
        check.count("partitions after merging", self.J.nstates)
        check.count("abstract steps", m.nsteps)

    def static(self, st, oid):
        """reachable from a global (the pool)"""
        seen, todo = set(), [i for i, o in st.mem.items() if o.kind in ("global",)]
        while todo:
            i = todo.pop()
            if i == oid:
                return True
            if i in seen or i not in st.mem:
                continue
            seen.add(i)
            for sz, v in st.mem[i].cells.values():
                if isinstance(v, Ptr):
                    todo.append(v.obj)
        return False


def one(check, pre, key, w, mk):
    mk().report(check, pre, key, w)


def multiexp(check, tier):
    t = tier == "thorough"
    check.rule("multiexp-sum", "the result is sum(s_i * P_i) for all scalars and bases (exact merge over window values)", 8)
    check.rule("multiexp-memory", "every table, scalar and accumulator access is in bounds and initialised, buffers are released, shifts are in range", 8)
    w = "c/multiexp.cpp multiexp"
    omp = load("-fopenmp", "-DUSE_OPENMP")
    ser = load()
    cfg = [(0, 8, 1), (1, 8, 1), (1, 64, 2), (2, 8, 1), (3, 8, 2), (2, 9, 2), (2, 16, 3), (2, 1, 1), (2, 3, 2), (2, 32, 1)]
    if t:
        cfg += [(4, 8, 3), (5, 8, 2), (2, 12, 2), (3, 32, 3), (2, 48, 2), (2, 7, 2), (8, 8, 4), (2, 15, 1), (2, 31, 2)]
    for n, S, T in cfg:
        one(check, "multiexp", "n=%d bytes=%d threads=%d" % (n, S, T), w, lambda: Run(omp, "d_multiexp", n, S, T))
    one(check, "multiexp", "n=3 bytes=8 explicit threads=3", w, lambda: Run(omp, "d_multiexp", 3, 8, 2, explicit=3))
    for n, S in ((2, 8), (3, 16)):
        one(check, "multiexp", "n=%d bytes=%d serial build" % (n, S), w, lambda: Run(ser, "d_multiexp", n, S, 1))
    one(check, "multiexp", "n=3 bytes=8 through the curve", w, lambda: Run(omp, "c_multiexp", 3, 8, 2))
    one(check, "multiexp", "n=3 bytes=8 threads=3 through the curve", w, lambda: Run(omp, "c_multiexp", 3, 8, 2, explicit=3))
    wide = [(16, 8, 2, 2), (64, 8, 2, 2)] + ([(32, 32, 2, 2), (128, 9, 3, 2), (256, 8, 2, 2), (512, 8, 2, 1), (16, 8, 2, 8)] if t else [])
    for n, S, T, ns in wide:
        one(check, "multiexp", "n=%d bytes=%d threads=%d (%d nonzero)" % (n, S, T, ns), w, lambda: Run(omp, "d_multiexp", n, S, T, nsym=ns))
    check.rule("multiexp-columns-sum", "the column-limited form adds exactly the elements whose row is below its column's size", 3)
    check.rule("multiexp-columns-memory", "same memory discipline for the column-limited form", 3)
    for xs, n, T in [((2, 1), 4, 2), ((1, 2), 4, 1), ((3,), 3, 2), ((2, 0), 4, 1), ((1, 2, 0), 6, 2)] + ([((2, 2, 1), 6, 3), ((0, 0), 4, 2), ((3, 1), 5, 2)] if t else []):
        one(check, "multiexp-columns", "sizes=%s n=%d threads=%d" % (xs, n, T), w, lambda: Run(omp, "d_multiexp_x", n, 8, T, xs=list(xs)))
    one(check, "multiexp-columns", "sizes=(2, 1) n=4 through the curve", w, lambda: Run(omp, "c_multiexp_x", 4, 8, 2, xs=[2, 1]))
    check.assume += ["group law and single scalar multiplication are exact (their own properties)"]


def msm(check, tier):
    t = tier == "thorough"
    check.rule("msm-sum", "the result is sum(s_i * P_i) for all scalars and bases (exact merge over signed digits and carries)", 8)
    check.rule("msm-memory", "bucket, digit and scalar accesses are in bounds and initialised, pool tasks are awaited, shifts are in range", 8)
    w = "c/msm.cpp run"
    mod = load()
    cfg = [(0, 8, 2), (1, 8, 2), (1, 64, 2), (2, 8, 1), (3, 8, 2), (5, 8, 3), (2, 9, 4), (2, 16, 2), (2, 1, 2), (3, 4, 2), (2, 32, 4), (2, 6, 1)]
    if t:
        cfg += [(7, 8, 3), (2, 12, 5), (3, 32, 8), (2, 48, 2), (2, 3, 3), (2, 15, 1), (9, 8, 4)]
    for n, S, T in cfg:
        one(check, "msm", "n=%d bytes=%d threads=%d" % (n, S, T), w, lambda: Run(mod, "d_msm", n, S, T))
    one(check, "msm", "n=3 bytes=8 through the curve", w, lambda: Run(mod, "c_msm", 3, 8, 2))
    for k in ((4, 5, 8) if not t else (4, 5, 6, 7, 8, 9, 10)):
        try:
            mk = load("-DMSM_BITS_PER_CHUNK=%d" % k)
        except CompileError:
            continue
        for n, S, T in ((2, 8, 2),) + (((2, 32, 3), (2, 9, 1)) if t and k < 8 else ()):
            one(check, "msm", "n=%d bytes=%d threads=%d window=%d" % (n, S, T, k), w, lambda: Run(mk, "d_msm", n, S, T))
    check.assume += ["group law and single scalar multiplication are exact (their own properties)", "a pool task handed to a worker runs once before the wait on that worker returns (thread-pool property)"]
