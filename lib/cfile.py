"""Abstract machine for code that parses an untrusted file held in memory.

The file has a symbolic size and symbolic bytes.  A load from it is an obligation (it must lie inside); a load that the
recorded facts do not prove inside splits the partition, and the failing side ends there as a 'crash' state.  A state is
reported only if a concrete assignment of the symbols satisfying all of its facts exists (`witness`).
"""
import random
from absint import *

M64 = 1 << 64
M32 = 1 << 32


def quotient(a, b):
    """the symbol for floor(a / b)"""
    a, b = P(a), P(b)
    k = ("quot", a.key(), b.key())
    if k not in SY.memo:
        SY.memo[k] = SY.new("quotient#%d" % len(SY.memo), 0, M64 - 1)
    return Poly({((SY.memo[k], 1),): 1})


class FileMachine(Machine):
    def __init__(self, mod, size_lo=0, size_hi=(1 << 62)):
        Machine.__init__(self, mod)
        self.N = Poly.sym("filesize[%d,%d]" % (size_lo, size_hi), size_lo, size_hi)
        self.forced = {}
        self.nres = 0
        self.inner = 0
        R = self.register
        R(r"^malloc$", self.h_malloc)
        R(r"^(open|open64)$", self.h_open)
        R(r"^(fstat|fstat64)$", self.h_fstat)
        R(r"^(mmap|mmap64)$", self.h_mmap)
        R(r"^munmap$", self.h_munmap)
        R(r"^close$", self.h_close)
        R(r"^ThreadUtils::parcpy\(", self.h_parcpy)
        R(r"^omp_get_(max_threads|num_procs)$", lambda m, s, i, a: Poly.sym("processors", 1, 4096))
        R(r"^std::thread::hardware_concurrency", lambda m, s, i, a: Poly.sym("hwthreads", 0, 4096))
        R(r"^__errno_location$", self.h_errno)
        R(r"^std::(_V2::)?(generic|system)_category\(", self.h_errno)
        R(r"^memcmp$", self.h_memcmp)
        R(r"^strlen$", self.h_strlen)
        R(r"^(_ZSt|std::).*_Rb_tree_(increment|decrement|insert_and_rebalance)\(", self.h_rb)
        R(r"^std::(__cxx11::)?to_string\(", self.h_to_string)
        R(r"^std::(exception|runtime_error|logic_error|invalid_argument|range_error|out_of_range|length_error|domain_error|"
          r"overflow_error|underflow_error|system_error|bad_alloc|ios_base::failure)::~?\w+\(", lambda m, s, i, a: None)

    # ---- resources
    def nofail(self, s, what):
        """does the environment grant this request?"""
        ok = self.nd(s, "grant", what, s.tags.get("nreq", 0))
        return ok

    def grant(self, s, what):
        ok = self.nofail(s, what)
        s.tags["nreq"] = s.tags.get("nreq", 0) + 1
        if not ok:
            s.tags["fault"] = s.tags.get("fault", ()) + (what,)
        return ok

    def h_malloc(self, m, s, ins, a):
        if not self.grant(s, "memory"):
            return NULL
        return self.heap(s, a[0], "malloc@" + self.where(s))

    def h_open(self, m, s, ins, a):
        if not self.grant(s, "open"):
            return (1 << 32) - 1
        fd = 1000 + s.tags.get("nreq", 0)
        s.tags["fds"] = s.tags.get("fds", frozenset()) | {fd}
        return fd

    def h_fstat(self, m, s, ins, a):
        self.need_fd(s, a[0])
        if not self.grant(s, "fstat"):
            return (1 << 32) - 1
        self.havoc(s, a[1].obj)
        self.store(s, Ptr(a[1].obj, padd(a[1].off, 48)), 8, self.N)
        return 0

    def need_fd(self, s, fd):
        if fd not in s.tags.get("fds", ()):
            self.crash(s, "a descriptor is used that is not open")

    def h_mmap(self, m, s, ins, a):
        fd = a[4]
        self.need_fd(s, fd)
        if isinstance(a[5], int) and a[5] & 4095:
            return M64 - 1                  # rejected: offsets are multiples of the page size
        if simp(P(a[1]) - self.N) != 0 or a[5] != 0:
            raise Undecided("mapping of part of the file")
        if not self.ge0(s, self.N - 1) or not self.grant(s, "mmap"):
            return M64 - 1
        oid = s.alloc(self.N, "mapping@" + self.where(s), "map")
        s.tags["limit"] = dict(s.tags.get("limit", {}), **{str(oid): self.N})
        s.tags["maps"] = s.tags.get("maps", frozenset()) | {oid}
        return Ptr(oid, 0)

    def h_munmap(self, m, s, ins, a):
        p = a[0]
        if not isinstance(p, Ptr) or p.obj not in s.tags.get("maps", ()) or p.off != 0:
            self.crash(s, "unmaps something that is not mapped")
            return 0
        s.tags["maps"] = s.tags["maps"] - {p.obj}
        s.w(p.obj).alive = False
        return 0

    def h_close(self, m, s, ins, a):
        self.need_fd(s, a[0])
        s.tags["fds"] = s.tags.get("fds", frozenset()) - {a[0]}
        return 0

    def h_errno(self, m, s, ins, a):
        return Ptr(s.alloc(8, "errno", "input"), 0)

    def fileobj(self, s, size):
        oid = s.alloc(size, "file", "file")
        s.tags["limit"] = dict(s.tags.get("limit", {}), **{str(oid): size})
        return oid

    def limit(self, s, oid):
        return s.tags.get("limit", {}).get(str(oid))

    def crash(self, s, what):
        if s.ended is None:
            s.ended = "crash"
            s.tags["crash"] = (self.where(s), what)

    def copy_file(self, s, d, sr, n, nthreads=None):
        """copy n bytes from the start of the file"""
        for p in (d, sr):
            if not isinstance(p, Ptr) or p.obj == 0:
                self.crash(s, "copies the file through an invalid pointer")
                return
        lim = self.limit(s, sr.obj)
        do, so = s.mem[d.obj], s.mem[sr.obj]
        if nthreads is not None:
            nt = self.norm(s, nthreads, 32, True) if isinstance(nthreads, (int, Poly)) else None
            if nt is not None and not self.ge0(s, P(nt) - 1):
                self.crash(s, "asks for a parallel copy with no thread")
                return
        if lim is None or sr.off != 0 or d.off != 0:
            self.havoc(s, d.obj)
            raise Undecided("copy whose source is not the start of the file")
        n = self.norm(s, n, 64, False)
        if not so.alive or not do.alive:
            self.crash(s, "copies released memory")
            return
        if not self.ge0(s, P(lim) - n):
            self.crash(s, "copies from beyond the end of the data")
            return
        if do.size is None or isinstance(do.size, Top):
            raise Undecided("copy into a buffer of unknown size")
        if not self.ge0(s, P(do.size) - n):
            self.crash(s, "copies more than the buffer holds")
            return
        o = s.w(d.obj)
        o.cells = {}
        s.tags["limit"] = dict(s.tags["limit"], **{str(d.obj): simp(P(n))})

    def h_parcpy(self, m, s, ins, a):
        self.copy_file(s, a[0], a[1], a[2], a[3])
        return None

    # ---- libc / libstdc++ pieces that are not in the translation unit
    def h_memcmp(self, m, s, ins, a):
        n = a[2]
        if not isinstance(n, int) or not isinstance(a[0], Ptr) or not isinstance(a[1], Ptr):
            raise Undecided("memcmp of unresolved operands")
        for i in range(n):
            x = self.load(s, Ptr(a[0].obj, padd(a[0].off, i)), 1, "i8")
            y = self.load(s, Ptr(a[1].obj, padd(a[1].off, i)), 1, "i8")
            if s.ended:
                return 0
            if not isinstance(x, (int, Poly)) or not isinstance(y, (int, Poly)):
                return Top("memcmp")
            x, y = self.norm(s, x, 8, False), self.norm(s, y, 8, False)
            d = P(x) - P(y)
            if not self.ge0(s, d):
                return (1 << 32) - 1
            if not self.ge0(s, -d):
                return 1
        return 0

    def h_strlen(self, m, s, ins, a):
        t = self.cstr(s, a[0])
        return len(t) if t is not None else Top("strlen")

    def h_to_string(self, m, s, ins, a):
        p = a[0]
        buf = Ptr(p.obj, padd(p.off, 16))
        self.store(s, p, 8, buf)
        self.store(s, Ptr(p.obj, padd(p.off, 8)), 8, 1)
        self.store(s, buf, 2, 48)
        return None

    def g(self, s, p, o):
        v = self.load(s, Ptr(p.obj, padd(p.off, o)), 8, "p")
        return v if isinstance(v, Ptr) else NULL

    def h_rb(self, m, s, ins, a):
        """red-black tree primitives; an unbalanced search tree has the same observable behaviour"""
        d = self.mod["functions"][self.val(s, ins["callee"]).name]["dem"]
        P_, L_, R_ = 8, 16, 24
        put = lambda p, o, v: self.store(s, Ptr(p.obj, padd(p.off, o)), 8, v)
        if "insert_and_rebalance" in d:
            left, x, p, h = a
            left = left if isinstance(left, int) else int(self.truth(s, left))
            put(x, P_, p)
            put(x, L_, NULL)
            put(x, R_, NULL)
            self.store(s, x, 4, 1)
            if left & 1:
                put(p, L_, x)
                if p == h:
                    put(h, P_, x)
                    put(h, R_, x)
                elif p == self.g(s, h, L_):
                    put(h, L_, x)
            else:
                put(p, R_, x)
                if p == self.g(s, h, R_):
                    put(h, R_, x)
            return None
        f, b = (R_, L_) if "increment" in d else (L_, R_)
        x = a[0]
        if "decrement" in d:
            c = self.load(s, x, 4, "i32")
            if c == 0:
                return self.g(s, x, R_)
        y = self.g(s, x, f)
        if y != NULL:
            while True:
                z = self.g(s, y, b)
                if z == NULL:
                    return y
                y = z
        y = self.g(s, x, P_)
        while x == self.g(s, y, f):
            x, y = y, self.g(s, y, P_)
        return y if self.g(s, x, f) != y else x

    # ---- decisions: one step of linear combination with the recorded bounds
    def ge0(self, s, p):
        if isinstance(p, int):
            return p >= 0
        for sign in (1, -1):
            q = p if sign == 1 else -p - 1
            if self.proves(s, q):
                return sign == 1
        raise NeedFork(("ge0", p))

    def norm(self, s, v, w, signed):
        if isinstance(v, Poly) and not v.is_const():
            m = 1 << w
            L, H = (-(m >> 1), (m >> 1) - 1) if signed else (0, m - 1)
            lo, hi = self.rng(s, v)
            if lo is None or hi is None or lo < L or hi > H:
                if self.proves(s, v - L) and self.proves(s, -v + H):
                    return v
        return Machine.norm(self, s, v, w, signed)

    def proves(self, s, p, depth=2):
        p = P(p)
        lo, _ = self.rng(s, p)
        if lo is not None and lo >= 0:
            return True
        if depth == 0:
            return False
        for k, (l, h) in list(s.bounds.items()):
            if len(k) == 1 and len(k[0][0]) == 1:
                continue                   # plain symbol ranges are already used
            q = Poly(dict(k))
            for mo, c in q.t.items():
                cp = p.t.get(mo, 0)
                if not cp or cp % c:
                    continue
                f = cp // c
                if f > 0 and l is not None and self.proves(s, p - q * f + f * l, depth - 1):
                    return True
                if f < 0 and h is not None and self.proves(s, p - q * f + f * h, depth - 1):
                    return True
        return False

    # ---- memory
    def access(self, s, p, size, write):
        if p.obj == 0:
            self.crash(s, "null pointer dereference")
            return None, None
        n = len(self.oob)
        r = Machine.access(self, s, p, size, write)
        if len(self.oob) > n:
            self.crash(s, "invalid access to %s" % (self.oob[-1][1],))
        return r

    def store(self, s, p, size, v):
        if isinstance(p, int):
            self.crash(s, "store through an invalid pointer")
            return
        if isinstance(p, Ptr) and self.limit(s, p.obj) is not None:
            raise Undecided("the file image is modified")
        Machine.store(self, s, p, size, v)

    def load(self, s, p, size, ty="i64"):
        if isinstance(p, int):
            self.crash(s, "load through an invalid pointer")
            return Top("bad")
        if isinstance(p, Ptr) and p.obj:
            lim = self.limit(s, p.obj)
            if lim is not None:
                off = self.inside(s, p, size)
                return Top("outside") if off is None else self.fread(s, off, size)
        return Machine.load(self, s, p, size, ty)

    def inside(self, s, p, size):
        if not s.mem[p.obj].alive:
            self.crash(s, "reads released memory")
            return None
        off = self.norm(s, p.off, 64, False)
        if not isinstance(off, (int, Poly)):
            raise Undecided("unresolved position")
        if not self.ge0(s, P(self.limit(s, p.obj)) - off - size):
            self.crash(s, "reads %d bytes beyond the end of the data" % size)
            return None
        return off

    def fread(self, s, off, size):
        """the little-endian value of `size` bytes at offset `off`"""
        off = P(off)
        k = (off.key(), size)
        f = self.forced.get(k)
        if f is not None:
            return f
        tab = s.tags.get("fbytes", {})
        if k in tab:
            return tab[k]
        for (ok, osz), v in list(tab.items()) + list(self.forced.items()):
            d = off - Poly(dict(ok))
            if d.is_const():
                d = d.cval()
                if 0 <= d and d + size <= osz:
                    h = self.split(s, v, 8 * d)[0]
                    return self.split(s, h, 8 * size)[1]
                if d < osz and d + size > 0:
                    if size > 1:        # put together from what was read before, or from bytes
                        v, i = P(0), 0
                        known = list(self.forced.items()) + list(tab.items())
                        while i < size:
                            n, x = max([(kz, y) for (kk, kz), y in known if kz <= min(size - i, size - 1) and (Poly(dict(kk)) - off - i).is_zero()],
                                       key=lambda e: e[0], default=(1, None))
                            v = v + P(self.fread(s, off + i, 1) if x is None else x).scale(1 << (8 * i))
                            i += n
                        return self.joined(s, v) if len(v.t) > 1 else simp(v)
        v = file_sym(off, size)
        s.tags["fbytes"] = dict(tab, **{})
        s.tags["fbytes"][k] = v
        return v

    def memcpy(self, s, d, sr, n, sizeop=None):
        if isinstance(sr, Ptr) and sr.obj and self.limit(s, sr.obj) is not None:
            if isinstance(n, int) and n <= 64:
                if n == 0:
                    return
                off = self.inside(s, sr, n)
                if off is None:
                    return
                for i in range(n):
                    self.store(s, Ptr(d.obj, padd(d.off, i)), 1, self.fread(s, P(off) + i, 1))
                return
            self.copy_file(s, d, sr, n)
            return
        if isinstance(n, Poly):
            raise Undecided("copy of symbolic length")
        Machine.memcpy(self, s, d, sr, n, sizeop)

    def memset(self, s, d, v, n):
        if isinstance(n, Poly) and isinstance(d, Ptr):
            self.havoc(s, d.obj)
            return
        Machine.memset(self, s, d, v, n)

    def icmp(self, s, pred, a, b, w, ptrty):
        if pred in ("eq", "ne"):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Ptr) and isinstance(y, int) and y not in (0,) and x.obj != 0:
                    return int(pred == "ne")
                if x == NULL and isinstance(x, Ptr) and isinstance(y, int) and y:
                    return int(pred == "ne")
        elif isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj != b.obj:
            return int((a.obj < b.obj) == (pred[1] == "l"))      # distinct objects: one layout, in order of allocation
        return Machine.icmp(self, s, pred, a, b, w, ptrty)

    def binop(self, s, op, a, b, w):
        if op in ("udiv", "urem") and isinstance(b, Poly) and not b.is_const() and isinstance(a, (int, Poly)):
            a, b = self.norm(s, a, w, False), self.norm(s, b, w, False)
            if isinstance(b, Poly):
                if not self.ge0(s, b - 1):
                    self.crash(s, "divides by zero")
                    return Top("div0")
                q = quotient(a, b)
                return q if op == "udiv" else Top("urem")
        if op in ("udiv", "urem", "sdiv", "srem") and (b == 0 or isinstance(b, Poly) and b.is_zero()):
            self.crash(s, "divides by zero")
            return Top("div0")
        r = Machine.binop(self, s, op, a, b, w)
        return self.joined(s, r) if op in ("add", "or", "xor", "shl") and isinstance(r, Poly) and len(r.t) > 1 else r

    def joined(self, s, p):
        """adjacent slices of one value, put together by shifts and sums, are a slice of that value"""
        for _ in range(16):
            at = {}
            for mo, c in p.t.items():
                if len(mo) == 1 and mo[0][1] == 1 and c > 0:
                    sl = slice_of(mo[0][0])
                    if sl:
                        at[(sl[0], sl[1], c)] = (sl[2], mo)
            for (q, a, c), (n, mo) in at.items():
                x = n is not None and at.get((q, a + n, c << n))
                if not x:
                    continue
                base = BASE[q]
                wd = width_of(base)
                v = base if a == 0 else self.split(s, base, a)[0]
                if x[0] is not None and (wd is None or a + n + x[0] < wd):
                    v = self.split(s, v, n + x[0])[1]
                t = dict(p.t)
                del t[mo], t[x[1]]
                p = simp(Poly(t) + P(v).scale(c))
                break
            else:
                break
            if not isinstance(p, Poly):
                break
        return p

    # ---- GMP integers: where their value came from, and the init/clear typestate
    def install_gmp(self):
        R = self.register
        R(r"^__gmpz_init2?$", self.h_mpz_init)
        R(r"^__gmpz_clear$", self.h_mpz_clear)
        R(r"^__gmpz_import$", self.h_mpz_import)

    def mkey(self, s, p):
        if not isinstance(p, Ptr) or not isinstance(self.offset(s, p), int):
            raise Undecided("unresolved GMP integer")
        self.access(s, p, 16, True)
        return (p.obj, self.offset(s, p))

    def h_mpz_init(self, m, s, ins, a):
        k = self.mkey(s, a[0])
        if k in s.tags.get("mpz", ()):
            self.crash(s, "initialises a GMP integer twice, losing the first")
        s.tags["mpz"] = s.tags.get("mpz", frozenset()) | {k}
        s.tags["mpzval"] = dict(s.tags.get("mpzval", {}))
        s.tags["mpzval"].pop(k, None)
        return None

    def h_mpz_clear(self, m, s, ins, a):
        k = self.mkey(s, a[0])
        if k not in s.tags.get("mpz", ()):
            self.crash(s, "releases a GMP integer that is not initialised")
        s.tags["mpz"] = s.tags.get("mpz", frozenset()) - {k}
        return None

    def h_mpz_import(self, m, s, ins, a):
        k = self.mkey(s, a[0])
        if k not in s.tags.get("mpz", ()):
            self.crash(s, "assigns a GMP integer that is not initialised")
            return None
        n, order, size, endian, nails, p = a[1:7]
        order = sgn(order, 32) if isinstance(order, int) else order
        n = self.norm(s, n, 64, False)
        little = (order == -1 or n == 1) and (size == 1 or endian in (M32 - 1, 0))
        if isinstance(n, Top) or not isinstance(size, int):
            if str(getattr(n, "why", "")).startswith("uninit"):
                self.crash(s, "imports a number whose length was never read")
                return None
            raise Undecided("mpz_import of an untracked size")
        little = little and nails == 0
        total = simp(P(n) * size)
        if not isinstance(p, Ptr):
            raise Undecided("mpz_import from an unknown place")
        if self.limit(s, p.obj) is None:
            raise Undecided("mpz_import from outside the file")
        if not s.mem[p.obj].alive:
            self.crash(s, "reads released memory")
            return None
        off = self.norm(s, p.off, 64, False)
        if not self.ge0(s, P(self.limit(s, p.obj)) - off - total):
            self.crash(s, "imports a number from beyond the end of the data")
            return None
        s.tags["mpzval"] = dict(s.tags.get("mpzval", {}))
        s.tags["mpzval"][k] = (little, off, total)
        return None

    def leaks(self, s, ignore=()):
        out = []
        for i, o in s.mem.items():
            if o.kind == "heap" and o.alive and i not in ignore:
                out.append("the memory of %s" % o.name)
            if o.kind == "map" and o.alive:
                out.append("the file mapping")
        if s.tags.get("fds"):
            out.append("the file descriptor")
        if s.tags.get("mpz"):
            out.append("a GMP integer")
        return out

    def thrown(self, s):
        """name of the thrown type and whether it is a standard exception object"""
        t = s.tags.get("exc")
        if not t:
            return "?", None
        ti = t[0]
        if isinstance(ti, Fn):
            return ti.name, True                     # std::__throw_*
        if not isinstance(ti, Ptr):
            return "?", None
        name = next((n for n, i in self.goid.items() if i == ti.obj), "?")
        return name, self.is_std(name)

    STD = re.compile(r"^_ZTI(St\d+|NSt\S*)(exception|runtime_error|logic_error|invalid_argument|range_error|out_of_range|length_error|"
                     r"domain_error|overflow_error|underflow_error|system_error|bad_alloc|bad_array_new_length|failure\S*)E?$")

    def is_std(self, name, depth=0):
        if self.STD.match(name):
            return True
        g = self.mod["globals"].get(name)
        if not g or depth > 5:
            return False

        def refs(v):
            if isinstance(v, list):
                if len(v) >= 2 and v[0] == "g" and isinstance(v[1], str):
                    yield v[1]
                for x in v:
                    yield from refs(x)
        if name.startswith("_ZTIP"):
            return False
        return any(r.startswith("_ZTI") and self.is_std(r, depth + 1) for r in refs(g.get("init", [])))


FSYM = {}


def file_sym(off, size):
    """the symbol for the value of `size` bytes at `off`; one symbol per (position, size)"""
    k = ("file", P(off).key(), size)
    if k not in FSYM:
        n = repr(P(off)) if P(off).is_const() else "#%d" % len(FSYM)
        FSYM[k] = Poly.sym("file[%s:%d]" % (n, size), 0, (1 << (8 * size)) - 1)
    return FSYM[k]


SLICES = {}             # symbol -> (base, position, bits or None for all that follow)
BASE = {}
_seen = [0]


def width_of(p):
    lo, hi = (SY.lo[p.lead()[0][0]], SY.hi[p.lead()[0][0]]) if len(p.t) == 1 and len(p.lead()) == 1 and p.lead()[0][1] == 1 and p.t[p.lead()] == 1 else (None, None)
    return hi.bit_length() if lo == 0 and hi is not None and hi & (hi + 1) == 0 else None


def slice_of(sy):
    if len(SY.memo) != _seen[0]:
        _seen[0] = len(SY.memo)
        for k, v in list(SY.memo.items()):
            if k[0] == "split" and v[0] not in SLICES:
                p = Poly(dict(k[1]))
                base, a, n = p.key(), 0, width_of(p)
                if len(p.t) == 1 and len(p.lead()) == 1 and p.lead()[0][1] == 1 and p.t[p.lead()] == 1:
                    sl = SLICES.get(p.lead()[0][0])
                    if sl:
                        base, a, n = sl
                BASE.setdefault(base, p if base == p.key() else None)
                SLICES[v[0]] = (base, a + k[2], None if n is None else n - k[2])
                SLICES[v[1]] = (base, a, k[2])
    return SLICES.get(sy)


# ---------- witnesses
def definitions():
    """derived symbols and how to compute them"""
    d = {}
    for k, v in SY.memo.items():
        if k[0] == "split":
            a, b = v
            d[a] = ("hi", Poly(dict(k[1])), k[2])
            d[b] = ("lo", Poly(dict(k[1])), k[2])
        elif k[0] == "quot":
            d[v] = ("quot", Poly(dict(k[1])), Poly(dict(k[2])))
        elif k[0] == "div" and isinstance(v, int):
            d[v] = ("div", Poly(dict(k[1])), k[2])
        elif isinstance(v, int) and len(k) == 3 and isinstance(k[0], tuple) and isinstance(k[1], int):
            d[v] = ("wrap", Poly(dict(k[0])), k[1], k[2])
    return d


class Witness:
    def __init__(self, m, s, tries=60, seed=1, prefer=None):
        self.defs = definitions()
        self.rnd = random.Random(seed)
        self.facts = []
        for cond, truth in s.facts:
            if cond[0] == "ge0":
                self.facts.append(P(cond[1]) if truth else -P(cond[1]) - 1)
        self.base = []
        seen = set()
        todo = [x for p in self.facts for x in p.syms()]
        todo += [x for v in s.tags.get("fbytes", {}).values() if isinstance(v, Poly) for x in v.syms()]
        todo += list(m.N.syms())
        while todo:
            y = todo.pop()
            if y in seen:
                continue
            seen.add(y)
            if y in self.defs:
                todo += [z for q in self.defs[y][1:] if isinstance(q, Poly) for z in q.syms()]
            else:
                self.base.append(y)
        self.m, self.s = m, s
        self.found = None
        # interval hints
        for t in range(tries):
            a = self.attempt(t)
            for k in range(6):
                if a is None:
                    break
                moved = self.consistent(a)
                if moved is None:
                    self.found = a
                    break
                a = self.repair(moved) if moved else None
            if self.found is not None:
                break

    def ev(self, p, a):
        r = 0
        for mo, c in p.t.items():
            x = c
            for y, e in mo:
                x *= self.val(y, a) ** e
            r += x
        return r

    def val(self, y, a):
        if y in a:
            return a[y]
        d = self.defs.get(y)
        if d is None:
            a[y] = SY.lo[y] or 0  # not constrained by any fact of the path
            return a[y]
        v = self.ev(d[1], a)
        if d[0] == "quot":
            w = self.ev(d[2], a)
            return v // w if w else 0
        if d[0] == "hi":
            return v >> d[2]
        if d[0] == "lo":
            return v & ((1 << d[2]) - 1)
        if d[0] == "div":
            return v // d[2]
        w = d[2]
        v %= 1 << w
        return v - (1 << w) if d[3] and v >> (w - 1) else v

    def attempt(self, t):
        r = self.rnd
        a = {}
        for y in self.base:
            lo, hi = SY.lo[y], SY.hi[y]
            lo = -(1 << 64) if lo is None else lo
            hi = (1 << 64) if hi is None else hi
            c = [lo, min(hi, lo + 1), min(hi, lo + 8), min(hi, lo + 40), hi, (lo + hi) // 2]
            a[y] = c[0] if t == 0 else r.choice(c[:4]) if t < 20 else r.choice(c)
        return self.repair(a)

    def repair(self, a):
        """change values until every fact holds"""
        r = self.rnd
        for step in range(600):
            bad = [p for p in self.facts if self.ev(p, a) < 0]
            if not bad:
                return a
            p = r.choice(bad)
            v = self.ev(p, a)
            ys = [(mo[0][0], c) for mo, c in p.t.items() if len(mo) == 1 and mo[0][1] == 1]
            direct = [(y, c) for y, c in ys if y in a]
            pool = direct or [(y, 0) for y in self.base if any(y in self.closure(z) for z in p.syms())]
            if not pool:
                return None
            y, c = r.choice(pool)
            lo, hi = SY.lo[y], SY.hi[y]
            if c:
                need = -(v // c) if c > 0 else (-v + (-c) - 1) // (-c)
                nv = a[y] + need if c > 0 else a[y] - need
                if r.random() < 0.15:
                    nv += r.choice((1, 2, 8, 64)) * (1 if c > 0 else -1)
            else:
                nv = r.choice([0, 1, 2, 3, 8, 255, 1 << 16, (1 << 31), (1 << 32) - 1, M64 - 1, M64 - 8, 1 << 63, r.getrandbits(8), r.getrandbits(32), a[y] + 1, a[y] - 1])
            if lo is not None:
                nv = max(nv, lo)
            if hi is not None:
                nv = min(nv, hi)
            a[y] = nv
        return None

    def closure(self, y):
        if y not in self.defs:
            return {y}
        out = set()
        for q in self.defs[y][1:]:
            for z in (q.syms() if isinstance(q, Poly) else ()):
                out |= self.closure(z)
        return out

    def consistent(self, a):
        """None if the values read at overlapping offsets agree; otherwise an assignment in which later reads follow the
        bytes of earlier ones, or False"""
        changed = {}
        byt = {}
        items = [(Poly(dict(k)), sz, v) for (k, sz), v in list(self.s.tags.get("fbytes", {}).items()) + list(self.m.forced.items())]
        items += [(Poly(dict(k[1])), k[2], v) for k, v in FSYM.items() if v.lead()[0][0] in a]
        n = self.val(next(iter(self.m.N.syms())), a) if not self.m.N.is_const() else self.m.N.cval()
        for off, sz, v in items:
            for y in off.syms():
                if y not in a and y not in self.defs:
                    a[y] = SY.lo[y] or 0
            o = self.ev(off, a)
            x = self.ev(P(v), a)
            if o + sz > n:
                continue
            got = [byt.setdefault(o + i, (x >> (8 * i)) & 255) for i in range(sz)]
            y = sum(b << (8 * i) for i, b in enumerate(got))
            if y != x % (1 << (8 * sz)):
                q = P(v)
                sy = q.lead()[0][0] if not q.is_const() and list(q.t.values()) == [1] and len(q.lead()) == 1 and q.lead()[0][1] == 1 else None
                if sy is None or sy not in a:
                    return False
                changed[sy] = y
        if not changed:
            return None
        a.update(changed)
        return a

    def text(self):
        return ", ".join("%s=%d" % (SY.names[y], v) for y, v in sorted(self.found.items()))[:300]
