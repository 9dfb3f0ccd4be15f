"""Abstract interpreter over LLVM IR (as dumped by tools/irdump.cpp).

Forward data-flow analysis with trace partitioning.  Integers are polynomials over symbols with ranges,
pointers are (object, offset), ring elements are polynomials; nothing is executed and no solver is used.
A partition is split only when a branch condition is not decided by the abstract values and recorded facts.
"""
import json, subprocess, os, re, itertools, math, time
from poly import Poly, P, SY, Rat


class Undecided(Exception):
    pass


class NeedFork(Exception):
    def __init__(self, cond):
        self.cond = cond


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off=0):
        self.obj = obj
        self.off = off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj == o.obj and self.off == o.off

    def __hash__(self):
        return hash((self.obj, self.off))

    def __repr__(self):
        return "&%s+%s" % (self.obj, self.off)

NULL = Ptr(0, 0)


class Fn:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Fn) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "@" + self.name


class Top:
    __slots__ = ("why",)

    def __init__(self, why=""):
        self.why = why

    def __repr__(self):
        return "T(%s)" % (self.why,)


class Agg:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = dict(f)

    def __repr__(self):
        return "{%s}" % self.f


class Obj:
    __slots__ = ("size", "cells", "name", "kind", "lazy", "alive", "pristine")

    def __init__(self, size, name, kind, lazy=None):
        self.size = size
        self.cells = {}
        self.name = name
        self.kind = kind
        self.lazy = lazy
        self.alive = True
        self.pristine = True

    def copy(self):
        o = Obj(self.size, self.name, self.kind, self.lazy)
        o.cells = dict(self.cells)
        o.alive = self.alive
        o.pristine = self.pristine
        return o


class Frame:
    __slots__ = ("fn", "blk", "prev", "ip", "env", "ret", "unwind", "allocas", "tag")

    def __init__(self, fn):
        self.fn = fn
        self.blk = 0
        self.prev = -1
        self.ip = 0
        self.env = {}
        self.ret = None
        self.unwind = None
        self.allocas = []
        self.tag = None

    def copy(self):
        f = Frame(self.fn)
        f.blk, f.prev, f.ip, f.ret, f.unwind, f.tag = self.blk, self.prev, self.ip, self.ret, self.unwind, self.tag
        f.env = dict(self.env)
        f.allocas = list(self.allocas)
        return f


class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.owned = set()
        self.facts = []
        self.known = {}
        self.bounds = {}
        self.zero = []
        self.tags = {}
        self.nid = 1
        self.result = None
        self.ended = None
        self.steps = 0
        self.loopcnt = {}

    def clone(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        self.owned = set()
        s.facts = list(self.facts)
        s.known = dict(self.known)
        s.bounds = dict(self.bounds)
        s.zero = list(self.zero)
        s.tags = {k: (v.copy() if hasattr(v, "copy") else v) for k, v in self.tags.items()}
        s.nid = self.nid
        s.steps = self.steps
        s.loopcnt = dict(self.loopcnt)
        return s

    def w(self, oid):
        if oid not in self.owned:
            self.mem[oid] = self.mem[oid].copy()
            self.owned.add(oid)
        return self.mem[oid]

    def alloc(self, size, name, kind, lazy=None):
        i = self.nid
        self.nid += 1
        self.mem[i] = Obj(size, name, kind, lazy)
        self.owned.add(i)
        return i


def width(ty):
    return int(ty[1:]) if ty[0] == "i" else 64


def norm_key(p):
    """p = k*q + c with k != 0 and q constant-free, primitive, with a positive leading coefficient."""
    c = p.t.get((), 0)
    q = p - c if c else p
    k = 1
    if q.t:
        k = 0
        for x in q.t.values():
            k = math.gcd(k, x)
            if k == 1:
                break
        if q.t[q.lead()] < 0:
            k = -k
        if k != 1:
            q = Poly({m: x // k for m, x in q.t.items()})
    return k, q, c


class Machine:
    MAXPART = 20000
    MAXSTEP = 4000000

    def __init__(self, mod, client=None):
        self.mod = mod
        self.client = client
        self.ext = []          # list of (compiled regex on demangled name, handler)
        self.extcache = {}
        self.unmodelled = set()
        self.visited_fns = set()
        self.nparts = 0
        self.nsteps = 0
        self.on_access = None
        self.on_event = None
        self.on_block = None
        self.oob = []
        self.uninit = []
        self.concretize_limit = 0
        self.globals0 = {}
        self.merge = False
        self.seen = set()
        self.fn_alias = {}

    # ---------- setup
    def register(self, pat, handler):
        self.ext.append((re.compile(pat), handler))
        self.extcache = {}

    def handler(self, name):
        h = self.extcache.get(name, 0)
        if h == 0:
            dem = self.mod["functions"].get(name, {}).get("dem", name)
            h = None
            for rx, hd in self.ext:
                if rx.search(dem):
                    h = hd
            self.extcache[name] = h
        return h

    def new_state(self):
        s = State()
        self.goid = {}
        for g, d in self.mod["globals"].items():
            self.goid[g] = s.alloc(d["size"], g, "const" if d["const"] else "global")
        for g, d in self.mod["globals"].items():
            if "init" in d:
                self.init_const(s, self.goid[g], 0, d["init"], d["size"])
        return s

    def init_const(self, s, oid, off, v, size):
        k = v[0]
        o = s.mem[oid]
        if k == "zero" or (k == "undef"):
            if k == "zero":
                o.cells[off] = (v[2], ("Z",))
            return
        if k == "struct":
            for fo, e in v[2]:
                self.init_const(s, oid, off + fo, e, None)
            return
        if k == "arr":
            for i, e in enumerate(v[2]):
                self.init_const(s, oid, off + i * v[1], e, v[1])
            return
        val = self.cval(s, v)
        sz = 8
        if k == "c":
            sz = max(1, (width(v[1]) + 7) // 8)
        o.cells[off] = (sz, val)

    def cval(self, s, v):
        k = v[0]
        if k == "c":
            return int(v[2]) & ((1 << width(v[1])) - 1)
        if k == "null":
            return NULL
        if k == "f":
            return Fn(v[1])
        if k == "g":
            return Ptr(self.goid[v[1]], 0)
        if k == "off":
            b = self.cval(s, v[1])
            return Ptr(b.obj, b.off + v[2]) if isinstance(b, Ptr) else Top("off")
        if k in ("poison", "undef"):
            return Top("undef")
        if k == "fp":
            try:
                return float(v[1])
            except ValueError:
                return Top("fp")
        if k == "zero":
            return Agg({})
        if k == "ce":
            if v[1] in ("ptrtoint", "inttoptr", "bitcast"):
                return self.cval(s, v[3][0])
            return Top("ce")
        if k == "struct":
            return Agg({i: self.cval(s, e[1]) for i, e in enumerate(v[2])})
        return Top(k)

    def val(self, s, v):
        if v[0] == "r":
            return s.frames[-1].env[v[1]]
        return self.cval(s, v)

    # ---------- integer domain
    def rng(self, s, p):
        if isinstance(p, int):
            return p, p
        if p.is_const():
            return p.cval(), p.cval()
        lo = hi = 0
        for m, c in p.t.items():
            a = b = 1
            for sy, e in m:
                l, h = SY.lo[sy], SY.hi[sy]
                if e == 1 or True:
                    bb = s.bounds.get(((((sy, 1),), 1),)) if s is not None else None
                    if bb:
                        if bb[0] is not None and (l is None or bb[0] > l):
                            l = bb[0]
                        if bb[1] is not None and (h is None or bb[1] < h):
                            h = bb[1]
                if l is None or h is None:
                    a = b = None
                    break
                for _ in range(e):
                    xs = (a * l, a * h, b * l, b * h)
                    a, b = min(xs), max(xs)
                if e % 2 == 0 and len(m) == 1 and a < 0:
                    a = 0
            if a is None:
                lo = hi = None
                break
            if c > 0:
                lo += c * a
                hi += c * b
            else:
                lo += c * b
                hi += c * a
        if s is not None and s.bounds:
            k, q, c = norm_key(p)
            bb = s.bounds.get(q.key())
            if bb:
                l2, h2 = bb
                if k < 0:
                    l2, h2 = h2, l2
                if l2 is not None:
                    l2 = k * l2 + c
                    if lo is None or l2 > lo:
                        lo = l2
                if h2 is not None:
                    h2 = k * h2 + c
                    if hi is None or h2 < hi:
                        hi = h2
        return lo, hi

    def add_bound(self, s, p, lo=None, hi=None):
        k, q, c = norm_key(p)
        if lo is not None:
            lo -= c
        if hi is not None:
            hi -= c
        if k < 0:
            lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
            k = -k
        if k != 1:
            lo = None if lo is None else -((-lo) // k)
            hi = None if hi is None else hi // k
        k = q.key()
        ol, oh = s.bounds.get(k, (None, None))
        if ol is not None and (lo is None or ol > lo):
            lo = ol
        if oh is not None and (hi is None or oh < hi):
            hi = oh
        s.bounds[k] = (lo, hi)

    def ge0(self, s, p):
        """decide p >= 0 for a mathematical integer polynomial"""
        if isinstance(p, int):
            return p >= 0
        lo, hi = self.rng(s, p)
        if lo is not None and lo >= 0:
            return True
        if hi is not None and hi < 0:
            return False
        raise NeedFork(("ge0", p))

    def assume(self, s, cond, truth):
        s.facts.append((cond, truth))
        s.known[self.ckey(cond)] = truth
        if cond[0] == "ge0":
            if truth:
                self.add_bound(s, cond[1], lo=0)
            else:
                self.add_bound(s, cond[1], hi=-1)
            lo, hi = self.rng(s, cond[1])
            if lo is not None and hi is not None and lo > hi:
                return False
        if self.client is not None and hasattr(self.client, "assume"):
            return self.client.assume(self, s, cond, truth) is not False
        return True

    def ckey(self, cond):
        return tuple(c.key() if isinstance(c, Poly) else c for c in cond)

    def nd(self, s, *label):
        k = self.ckey(("nd",) + label)
        if k in s.known:
            return s.known[k]
        raise NeedFork(("nd",) + label)

    def norm(self, s, v, w, signed):
        """value of the w-bit word as a mathematical integer (signed or unsigned reading)"""
        m = 1 << w
        if isinstance(v, int):
            v &= m - 1
            if signed and v >> (w - 1):
                v -= m
            return v
        if not isinstance(v, Poly):
            return v
        if v.is_const():
            return self.norm(s, v.cval(), w, signed)
        L, H = (-(m >> 1), (m >> 1) - 1) if signed else (0, m - 1)
        lo, hi = self.rng(s, v)
        if lo is None or hi is None:
            return Top("unbounded")
        if lo >= L and hi <= H:
            return v
        klo = (lo - L) // m
        khi = (hi - L) // m
        if klo == khi:
            return v - klo * m
        if khi - klo <= 3:
            for k in range(klo, khi):
                # v < L + (k+1)*m ?
                if not self.ge0(s, v - (L + (k + 1) * m)):
                    return v - k * m
            return v - khi * m
        vm = Poly({mo: c % m for mo, c in v.t.items() if c % m})
        key = (vm.key(), w, signed)
        if key not in SY.memo:
            SY.memo[key] = SY.new("w%d{%s}" % (w, repr(vm)[:40] + "#%d" % len(SY.memo)), L, H)
        sy = SY.memo[key]
        return Poly({((sy, 1),): 1})

    # splitting a non-negative poly into multiples of 2^k and a remainder in [0,2^k)
    def split(self, s, p, k):
        m = 1 << k
        if isinstance(p, int):
            return p >> k, p & (m - 1)
        lo, hi = self.rng(s, p)
        if lo is not None and lo >= 0 and hi is not None and hi < m:
            return 0, p
        hi_t, lo_t = {}, {}
        for mo, c in p.t.items():
            q, r = divmod(c, m)
            if r * 2 > m and q < 0:
                pass
            if q:
                hi_t[mo] = q
            if r:
                lo_t[mo] = r
        h, l = Poly(hi_t), Poly(lo_t)
        a, b = self.rng(s, l)
        if a is not None and a >= 0 and b < m:
            return simp(h), simp(l)
        key = ("split", p.key(), k)
        if key not in SY.memo:
            SY.memo[key] = (SY.new("hi%d{%s}#%d" % (k, repr(p)[:30], len(SY.memo)), 0 if lo is not None and lo >= 0 else None, None if hi is None else hi >> k),
                            SY.new("lo%d{%s}#%d" % (k, repr(p)[:30], len(SY.memo)), 0, m - 1))
        a, b = SY.memo[key]
        return Poly({((a, 1),): 1}), Poly({((b, 1),): 1})

    def bits_of(self, p, w):
        """poly -> list of (0/1/sym poly) if it is a sum of distinct power-of-two weighted bits"""
        if isinstance(p, int):
            return [(p >> i) & 1 for i in range(w)]
        out = [0] * w
        for mo, c in p.t.items():
            if mo == ():
                for i in range(w):
                    if (c >> i) & 1:
                        if out[i] != 0:
                            return None
                        out[i] = 1
                if c < 0 or c >> w:
                    return None
                continue
            for sy, e in mo:
                if SY.lo[sy] != 0 or SY.hi[sy] != 1:
                    return None
            if c <= 0 or c >> w:
                return None
            for i in range(w):
                if (c >> i) & 1:
                    if out[i] != 0:
                        return None
                    out[i] = Poly({mo: 1})
        return out

    def andconst(self, s, p, mask, w):
        if mask == 0:
            return 0
        full = (1 << w) - 1
        if mask == full:
            return p
        if (mask + 1) & mask == 0:
            return self.split(s, p, mask.bit_length())[1]
        bl = self.bits_of(p, w)
        if bl is not None:
            r = Poly({})
            for i in range(w):
                if (mask >> i) & 1:
                    r = r + (bl[i] * (1 << i) if isinstance(bl[i], Poly) else P(bl[i] << i))
            return simp(r)
        if (full ^ mask) & ((full ^ mask) + 1) == 0:
            h, l = self.split(s, p, (full ^ mask).bit_length())
            return simp(P(p) - P(l))
        # contiguous mask
        low = (mask & -mask).bit_length() - 1
        h, l = self.split(s, p, low)
        if ((mask >> low) + 1) & (mask >> low) == 0:
            h2, l2 = self.split(s, h, (mask >> low).bit_length())
            return simp(P(l2).scale(1 << low))
        return Top("and")

    def binop(self, s, op, a, b, w):
        if isinstance(a, Poly) and a.is_const():
            a = a.cval() % (1 << w)
        if isinstance(b, Poly) and b.is_const():
            b = b.cval() % (1 << w)
        m = 1 << w
        if op == "and" and isinstance(a, Fn) and isinstance(b, int) and b < 2:
            return 0                                    # code addresses are even
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == "add":
                if isinstance(a, Ptr) and isinstance(b, (int, Poly)):
                    return Ptr(a.obj, padd(a.off, sgn(b, 64) if isinstance(b, int) else b))
                if isinstance(b, Ptr) and isinstance(a, (int, Poly)):
                    return Ptr(b.obj, padd(b.off, sgn(a, 64) if isinstance(a, int) else a))
            if op == "sub":
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                    return simp(P(a.off) - P(b.off), w)
                if isinstance(a, Ptr) and isinstance(b, (int, Poly)):
                    return Ptr(a.obj, padd(a.off, -sgn(b, 64) if isinstance(b, int) else -b))
            if op == "and" and isinstance(b, int) and isinstance(a, Ptr) and isinstance(a.off, int) and b < 16:
                return a.off & b
            return Top("ptrop")
        if isinstance(a, int) and isinstance(b, int):
            if op == "add":
                return (a + b) % m
            if op == "sub":
                return (a - b) % m
            if op == "mul":
                return (a * b) % m
            if op == "and":
                return a & b
            if op == "or":
                return a | b
            if op == "xor":
                return a ^ b
            if op in ("shl", "lshr", "ashr"):
                if b >= w:
                    if self.on_event:
                        self.on_event(s, "shift-overflow", (op, b, w))
                    return Top("shift>=width")
                if op == "shl":
                    return (a << b) % m
                if op == "lshr":
                    return a >> b
                return (sgn(a, w) >> b) % m
            if op in ("udiv", "urem"):
                if b == 0:
                    return Top("div0")
                return a // b if op == "udiv" else a % b
            if op in ("sdiv", "srem"):
                if b == 0:
                    return Top("div0")
                x, y = sgn(a, w), sgn(b, w)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                return q % m if op == "sdiv" else (x - q * y) % m
        if op == "mul" and (a == 0 or b == 0) and not isinstance(a, float):
            return 0
        if op == "and":
            if isinstance(a, int) and a == 0 or isinstance(b, int) and b == 0:
                return 0
        if not isinstance(a, (int, Poly)) or not isinstance(b, (int, Poly)):
            return Top(op)
        if op == "add":
            return simp(P(a) + P(b), w)
        if op == "sub":
            return simp(P(a) - P(b), w)
        if op == "mul":
            return simp(P(a) * P(b), w)
        if op == "shl":
            if isinstance(b, int) and b < w:
                return simp(P(a).scale(1 << b), w)
            return Top("shl")
        if op in ("lshr", "udiv", "urem"):
            if isinstance(b, int):
                if op == "lshr" and b >= w:
                    if self.on_event:
                        self.on_event(s, "shift-overflow", (op, b, w))
                    return Top("shift>=width")
                if op != "lshr":
                    if b == 0 or b & (b - 1) or (self.exactdiv and b > 1):
                        return self.divmodconst(s, a, b, w, op)
                    k = b.bit_length() - 1
                else:
                    k = b
                a = self.norm(s, a, w, False)
                if not isinstance(a, (int, Poly)):
                    return a
                h, l = self.split(s, a, k)
                return l if op == "urem" else h
            return Top(op)
        if op == "ashr":
            if isinstance(b, int) and b < w:
                a = self.norm(s, a, w, True)
                if isinstance(a, (int, Poly)):
                    return self.split(s, a, b)[0]
            return Top(op)
        if op in ("sdiv", "srem"):
            if isinstance(b, int):
                a = self.norm(s, a, w, True)
                if isinstance(a, Poly) and self.ge0(s, a) and 0 < b < (m >> 1):
                    return self.binop(s, "udiv" if op == "sdiv" else "urem", a, b, w)
            return Top(op)
        if op == "and":
            if isinstance(a, int):
                a, b = b, a
            a = self.norm(s, a, w, False)
            if isinstance(b, int):
                if not isinstance(a, (int, Poly)):
                    return a
                return self.andconst(s, a, b, w)
            b = self.norm(s, b, w, False)
            if isinstance(a, Poly) and isinstance(b, Poly) and a == b:
                return a
            x, y = (self.bits_of(a, w) if isinstance(a, Poly) else None), (self.bits_of(b, w) if isinstance(b, Poly) else None)
            if x and y:
                r = Poly({})
                for i in range(w):
                    r = r + (P(x[i]) * P(y[i])).scale(1 << i)
                return simp(bitred(r))
            return Top("and")
        if op == "or":
            a = self.norm(s, a, w, False)
            b = self.norm(s, b, w, False)
            if isinstance(a, int) and a == 0:
                return b
            if isinstance(b, int) and b == 0:
                return a
            if not isinstance(a, (int, Poly)) or not isinstance(b, (int, Poly)):
                return Top("or")
            if a == b:
                return a
            for x, y in ((a, b), (b, a)):
                lo, hi = self.rng(s, x)
                if lo is None or hi is None or lo < 0:
                    continue
                k = hi.bit_length()
                if self.split(s, y, k)[1] == 0:
                    return simp(P(a) + P(b))
            x, y = self.bits_of(a, w), self.bits_of(b, w)
            if x and y:
                r = Poly({})
                for i in range(w):
                    r = r + (P(x[i]) + P(y[i]) - P(x[i]) * P(y[i])).scale(1 << i)
                return simp(bitred(r))
            return Top("or")
        if op == "xor":
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int) and b == m - 1:
                return simp(-P(a) - 1, w)
            if w == 1 and b == 1:
                return simp(1 - P(a))
            a = self.norm(s, a, w, False)
            b = self.norm(s, b, w, False)
            if a == b:
                return 0
            x, y = (self.bits_of(a, w), self.bits_of(b, w)) if isinstance(a, (int, Poly)) and isinstance(b, (int, Poly)) else (None, None)
            if x and y:
                r = Poly({})
                for i in range(w):
                    r = r + (P(x[i]) + P(y[i]) - (P(x[i]) * P(y[i])).scale(2)).scale(1 << i)
                return simp(bitred(r))
            return Top("xor")
        return Top(op)

    exactdiv = False         # keep a = q*b + r for powers of two as well

    def divmodconst(self, s, a, b, w, op):
        a = self.norm(s, a, w, False)
        if not isinstance(a, Poly) or b == 0:
            return Top(op)
        lo, hi = self.rng(s, a)
        if hi is not None and hi < b:
            return 0 if op == "udiv" else a
        key = ("div", a.key(), b)
        if key not in SY.memo:
            SY.memo[key] = SY.new("q{%s}/%d#%d" % (repr(a)[:30], b, len(SY.memo)), None if lo is None else lo // b, None if hi is None else hi // b)
        q = Poly({((SY.memo[key], 1),): 1})
        r = a - q * b
        self.add_bound(s, r, 0, b - 1)
        return q if op == "udiv" else r

    def icmp(self, s, pred, a, b, w, ptrty):
        if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            if isinstance(a, int) and a == 0:
                a = NULL
            if isinstance(b, int) and b == 0:
                b = NULL
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.obj == b.obj:
                    a, b, w = a.off, b.off, 64
                    if isinstance(a, int) and isinstance(b, int):
                        a %= 1 << 64
                        b %= 1 << 64
                    pred = {"slt": "slt", "ult": "slt", "ugt": "sgt", "ule": "sle", "uge": "sge"}.get(pred, pred)
                elif pred in ("eq", "ne"):
                    return 1 if pred == "ne" else 0
                else:
                    return int(self.nd(s, "ptrcmp", pred, a.obj, b.obj))
            elif isinstance(a, Fn) and isinstance(b, Fn) and pred in ("eq", "ne"):
                return int((a == b) == (pred == "eq"))
            elif pred in ("eq", "ne") and (isinstance(a, Fn) and b == NULL or isinstance(b, Fn) and a == NULL):
                return 1 if pred == "ne" else 0
            else:
                return int(self.nd(s, "ptrcmp2", self.site(s)))
        if not isinstance(a, (int, Poly)) or not isinstance(b, (int, Poly)):
            return int(self.nd(s, "cmp", self.site(s), s.steps if not self.merge else 0))
        signed = pred[0] == "s"
        if pred in ("eq", "ne"):
            d = simp(P(a) - P(b))
            if isinstance(d, int):
                e = d % (1 << w) == 0
            else:
                a2, b2 = self.norm(s, a, w, False), self.norm(s, b, w, False)
                if not isinstance(a2, (int, Poly)) or not isinstance(b2, (int, Poly)):
                    return int(self.nd(s, "cmp", self.site(s), s.steps if not self.merge else 0))
                d = P(a2) - P(b2)
                if d.is_const():
                    e = d.cval() == 0
                else:
                    k = self.ckey(("ge0", d))
                    e = self.ge0(s, d) and self.ge0(s, -d)
            return int(e == (pred == "eq"))
        a, b = self.norm(s, a, w, signed), self.norm(s, b, w, signed)
        if not isinstance(a, (int, Poly)) or not isinstance(b, (int, Poly)):
            return int(self.nd(s, "cmp", self.site(s), s.steps if not self.merge else 0))
        r = pred[1:]
        if r == "lt":
            return int(not self.ge0(s, simp(P(a) - P(b))))
        if r == "ge":
            return int(self.ge0(s, simp(P(a) - P(b))))
        if r == "gt":
            return int(not self.ge0(s, simp(P(b) - P(a))))
        return int(self.ge0(s, simp(P(b) - P(a))))

    # ---------- memory
    def site(self, s):
        f = s.frames[-1]
        return (f.fn, f.blk, f.ip)

    def where(self, s, frame=None):
        if not s.frames and frame is None:
            return "end"
        f = s.frames[-1] if frame is None else frame
        if frame is None:
            # name the construct of the analysed code, not the library function it ends up in
            for g in reversed(s.frames):
                if not self.mod["functions"][g.fn].get("file", "?").startswith("/usr/"):
                    f = g
                    break
        fd = self.mod["functions"][f.fn]
        i = fd["blocks"][f.blk][min(f.ip, len(fd["blocks"][f.blk]) - 1)]
        file = i.get("file") or fd.get("file", "?")
        return "%s:%s in %s" % (os.path.basename(file), i.get("line", "?"), short(fd["dem"]))

    def offset(self, s, p):
        if isinstance(p.off, int):
            return p.off
        if p.off.is_const():
            return p.off.cval()
        lo, hi = self.rng(s, p.off)
        if lo is not None and lo == hi:
            return lo
        if self.concretize_limit and lo is not None and hi is not None:
            cs = [abs(c) for m, c in p.off.t.items() if m]
            g = 0
            import math
            for c in cs:
                g = math.gcd(g, c)
            if (hi - lo) // max(g, 1) <= self.concretize_limit:
                mid = (lo + hi + 1) // 2
                self.ge0(s, p.off - mid)
                raise NeedFork(("ge0", p.off - mid))
        return None

    def access(self, s, p, size, write):
        if self.on_access:
            self.on_access(s, p, size, write)
        o = s.mem.get(p.obj)
        off = self.offset(s, p)
        if off is None:
            return None, None
        if p.obj == 0 or o is None:
            self.oob.append((self.where(s), "null", write))
            return None, None
        if o.size is not None and isinstance(o.size, int) and (off < 0 or off + size > o.size):
            self.oob.append((self.where(s), "%s[%d..%d) size %d" % (o.name, off, off + size, o.size), write))
            return None, None
        if not o.alive:
            self.oob.append((self.where(s), "%s used after free" % o.name, write))
        return o, off

    def load(self, s, p, size, ty="i64"):
        if not isinstance(p, Ptr):
            return Top("load?")
        o, off = self.access(s, p, size, False)
        if o is None:
            return Top("load@%s" % (self.site(s),))
        v = self.read(s, p.obj, off, size)
        if v is None:
            if not o.pristine:
                return Top("havoc")
            if o.kind in ("alloca", "heap"):
                self.uninit.append((self.where(s), o.name, off))
            return Top("uninit %s+%s" % (o.name, off))
        if isinstance(v, tuple) and v and v[0] == "Z":
            v = NULL if ty == "p" else 0
        if ty == "p" and isinstance(v, int) and v == 0:
            v = NULL
        return v

    def read(self, s, oid, off, size):
        o = s.mem[oid]
        c = o.cells.get(off)
        if c and c[0] == size:
            return c[1]
        # zero-filled region
        for co, (cs, cv) in o.cells.items():
            if co <= off and off + size <= co + cs and isinstance(cv, tuple) and cv and cv[0] == "Z":
                return ("Z",)
        # cover by smaller / larger integer cells
        for co, (cs, cv) in o.cells.items():
            if co <= off and off + size <= co + cs and isinstance(cv, (int, Poly)):
                v = self.norm(s, cv, cs * 8, False) if isinstance(cv, Poly) else cv
                if not isinstance(v, (int, Poly)):
                    return None
                h, _ = self.split(s, v, (off - co) * 8)
                return self.split(s, h, size * 8)[1]
        if o.lazy and o.cells.get(off) is None:
            v = o.lazy(self, s, oid, off, size)
            if v is not None:
                return v
        tot = Poly({})
        x = off
        while x < off + size:
            c = o.cells.get(x)
            if c is None:
                z = False
                for co, (cs, cv) in o.cells.items():
                    if co <= x < co + cs and isinstance(cv, tuple) and cv and cv[0] == "Z":
                        z = True
                if z:
                    x += 1
                    continue
                if o.lazy:
                    v = o.lazy(self, s, oid, x, 1)
                    if v is not None:
                        tot = tot + P(v).scale(1 << (8 * (x - off)))
                        x += 1
                        continue
                return None
            if isinstance(c[1], tuple) and c[1] and c[1][0] == "Z":
                x += c[0]
                continue
            if not isinstance(c[1], (int, Poly)) or x + c[0] > off + size:
                return None
            v = self.norm(s, c[1], c[0] * 8, False)
            if not isinstance(v, (int, Poly)):
                return None
            tot = tot + P(v).scale(1 << (8 * (x - off)))
            x += c[0]
        return simp(tot)

    def kill(self, s, o, off, size):
        for co in [c for c in o.cells if c < off + size and c + o.cells[c][0] > off]:
            cs, cv = o.cells.pop(co)
            if isinstance(cv, tuple) and cv and cv[0] == "Z":
                if co < off:
                    o.cells[co] = (off - co, cv)
                if co + cs > off + size:
                    o.cells[off + size] = (co + cs - off - size, cv)
            elif isinstance(cv, (int, Poly)) and (co < off or co + cs > off + size):
                v = self.norm(s, cv, cs * 8, False)
                if isinstance(v, (int, Poly)):
                    if co < off:
                        o.cells[co] = (off - co, self.split(s, v, (off - co) * 8)[1])
                    if co + cs > off + size:
                        o.cells[off + size] = (co + cs - off - size, self.split(s, v, (off + size - co) * 8)[0])

    def store(self, s, p, size, v):
        if not isinstance(p, Ptr):
            if self.on_event:
                self.on_event(s, "store-unknown", p)
            return
        o, off = self.access(s, p, size, True)
        if o is None:
            if p.obj and p.obj in s.mem and self.offset(s, p) is None:
                o = s.w(p.obj)
                o.cells = {}
                o.lazy = None
                o.pristine = False
            return
        if o.kind == "const":
            self.oob.append((self.where(s), "write to constant %s" % o.name, True))
        o = s.w(p.obj)
        self.kill(s, o, off, size)
        o.cells[off] = (size, v)

    def memcpy(self, s, d, sr, n, sizeop=None):
        if not isinstance(n, int) or not isinstance(d, Ptr) or not isinstance(sr, Ptr):
            if isinstance(d, Ptr) and d.obj in s.mem and d.obj:
                if self.on_access:
                    if isinstance(sr, Ptr):
                        self.on_access(s, sr, n, False)
                    self.on_access(s, d, n, True)
                self.havoc(s, d.obj)
            return
        if n == 0:
            return
        so, soff = self.access(s, sr, n, False)
        do, doff = self.access(s, d, n, True)
        if do is None:
            return
        cells = {}
        ok = so is not None
        if ok:
            if so.lazy:
                for x in range(n):
                    if so.cells.get(soff + x) is None:
                        v = so.lazy(self, s, sr.obj, soff + x, 1)
                        if v is not None:
                            so = s.w(sr.obj)
                            if not any(c <= soff + x < c + so.cells[c][0] for c in so.cells):
                                so.cells[soff + x] = (1, v)
            for co, (cs, cv) in s.mem[sr.obj].cells.items():
                if co < soff + n and co + cs > soff:
                    if co >= soff and co + cs <= soff + n:
                        cells[doff + co - soff] = (cs, cv)
                    elif isinstance(cv, tuple) and cv and cv[0] == "Z":
                        a, b = max(co, soff), min(co + cs, soff + n)
                        cells[doff + a - soff] = (b - a, cv)
                    elif isinstance(cv, (int, Poly)):
                        a, b = max(co, soff), min(co + cs, soff + n)
                        v = self.norm(s, cv, cs * 8, False)
                        if isinstance(v, (int, Poly)):
                            h = self.split(s, v, (a - co) * 8)[0]
                            cells[doff + a - soff] = (b - a, self.split(s, h, (b - a) * 8)[1])
        do = s.w(d.obj)
        self.kill(s, do, doff, n)
        do.cells.update(cells)

    def memset(self, s, d, v, n):
        if isinstance(d, Ptr) and isinstance(n, int):
            if n == 0:
                return
            o, off = self.access(s, d, n, True)
            if o is None:
                return
            o = s.w(d.obj)
            self.kill(s, o, off, n)
            if v == 0:
                o.cells[off] = (n, ("Z",))
            elif isinstance(v, int) and n <= 4096:
                for i in range(n):
                    o.cells[off + i] = (1, v)
        elif isinstance(d, Ptr) and d.obj in s.mem:
            if self.on_access:
                self.on_access(s, d, n, True)
            self.havoc(s, d.obj)

    def havoc(self, s, oid):
        if oid and oid in s.mem and s.mem[oid].kind != "const":
            o = s.w(oid)
            o.cells = {}
            o.lazy = None
            o.pristine = False

    def cstr(self, s, p, maxn=4096):
        if not isinstance(p, Ptr):
            return None
        off = self.offset(s, p)
        out = bytearray()
        while len(out) < maxn:
            v = self.read(s, p.obj, off, 1)
            if isinstance(v, tuple):
                v = 0
            if not isinstance(v, int):
                return None
            if v == 0:
                return out.decode("latin1")
            out.append(v)
            off += 1
        return None

    # ---------- calls
    def push(self, s, fname, args, ret=None, unwind=None):
        fd = self.mod["functions"][fname]
        f = Frame(fname)
        self.visited_fns.add(fname)
        for a, v in zip(fd["args"], args):
            if a[2] == "byval" and isinstance(v, Ptr):
                oid = s.alloc(a[3], "byval%d" % a[0], "alloca")
                self.memcpy(s, Ptr(oid, 0), v, a[3])
                v = Ptr(oid, 0)
            f.env[a[0]] = v
        f.ret, f.unwind = ret, unwind
        if len(s.frames) > 200:
            raise Undecided("recursion depth exceeded in %s" % short(fd["dem"]))
        s.frames.append(f)

    def finish_call(self, s, ins, v):
        """after an external call handled by a summary"""
        f = s.frames[-1]
        f.env[ins["id"]] = v
        if "normal" in ins:
            f.prev, f.blk, f.ip = f.blk, ins["normal"], 0
            self.enter_block(s)
        else:
            f.ip += 1

    def throw(self, s, what):
        s.tags["exc"] = what
        while s.frames:
            f = s.frames[-1]
            fd = self.mod["functions"][f.fn]
            ins = fd["blocks"][f.blk][f.ip]
            if ins.get("op") == "invoke" and "unwind" in ins:
                f.prev, f.blk, f.ip = f.blk, ins["unwind"], 0
                self.enter_block(s)
                return
            self.pop_frame(s)
        s.ended = "throw"

    def pop_frame(self, s):
        f = s.frames.pop()
        for a in f.allocas:
            o = s.mem.get(a)
            if o is not None:
                s.mem.pop(a)
        return f

    def enter_block(self, s):
        f = s.frames[-1]
        fd = self.mod["functions"][f.fn]
        blk = fd["blocks"][f.blk]
        vals = []
        i = 0
        for ins in blk:
            if ins["op"] != "phi":
                break
            for v, b in ins["in"]:
                if b == f.prev:
                    vals.append((ins["id"], self.val(s, v)))
                    break
            i += 1
        for k, v in vals:
            f.env[k] = v
        f.ip = i
        if self.on_block:
            self.on_block(s)

    CAP = None          # (facts, steps, seconds) after which a partition is given up

    def run(self, s, fname, args, finals=None):
        """analyse fname from state s; returns the list of final states (ended in 'ret', 'throw', 'abort', 'cut')"""
        self.push(s, fname, args)
        self.enter_block(s)
        work = [s]
        out = []
        n = 0
        t0 = time.time()
        while work:
            st = work.pop()
            while st.ended is None:
                try:
                    self.step(st)
                    self.nsteps += 1
                    n += 1
                    if n > self.MAXSTEP:
                        raise Undecided("step budget exceeded at %s" % self.where(st))
                except NeedFork as nf:
                    if self.CAP and (len(st.facts) > self.CAP[0] or st.steps > self.CAP[1] or time.time() - t0 > self.CAP[2]):
                        st.ended = "toolong"        # not followed further; nothing is concluded from this partition
                        break
                    st.steps -= 1                   # the instruction is evaluated again on both sides
                    other = st.clone()
                    a = self.assume(st, nf.cond, True)
                    b = self.assume(other, nf.cond, False)
                    if a and b:
                        self.nparts += 1
                    if self.nparts > self.MAXPART:
                        raise Undecided("partition budget exceeded at %s" % self.where(st))
                    if b:
                        work.append(other)
                    if not a:
                        st.ended = "infeasible"
            if st.ended not in ("infeasible", "merged"):
                out.append(st)
        return out

    def step(self, s):
        f = s.frames[-1]
        fd = self.mod["functions"][f.fn]
        ins = fd["blocks"][f.blk][f.ip]
        op = ins["op"]
        s.steps += 1
        h = getattr(self, "i_" + op, None)
        if h is None:
            ops = ins.get("ops")
            if op in BIN:
                a, b = self.val(s, ops[0]), self.val(s, ops[1])
                r = self.binop(s, op, a, b, width(ins["ty"])) if ins["ty"][0] == "i" else Top(op)
                if ins["ty"] == "i1" and isinstance(r, Poly):
                    r = self.boolize(s, r)
                f.env[ins["id"]] = r
                f.ip += 1
                return
            f.env[ins["id"]] = self.floatop(s, op, ins)
            f.ip += 1
            return
        h(s, f, ins)

    def boolize(self, s, r):
        r = self.norm(s, r, 1, False)
        if isinstance(r, Poly):
            return 1 if self.ge0(s, r - 1) else 0
        return r

    def floatop(self, s, op, ins):
        vs = [self.val(s, o) for o in ins.get("ops", [])]
        if any(isinstance(v, (Top, Poly)) for v in vs):
            return Top(op)
        try:
            if op in ("uitofp",):
                return float(vs[0])
            if op == "sitofp":
                return float(sgn(vs[0], width(ins["oty"][0])))
            if op in ("fptoui", "fptosi"):
                return int(vs[0]) % (1 << width(ins["ty"]))
            if op == "fmul":
                return vs[0] * vs[1]
            if op == "fadd":
                return vs[0] + vs[1]
            if op == "fsub":
                return vs[0] - vs[1]
            if op == "fdiv":
                return vs[0] / vs[1]
            if op in ("fpext", "fptrunc"):
                return vs[0]
            if op == "fcmp":
                p = ins["pred"][1:]
                a, b = vs
                return int({"lt": a < b, "gt": a > b, "le": a <= b, "ge": a >= b, "eq": a == b, "ne": a != b}.get(p, False))
        except Exception:
            pass
        return Top(op)

    def i_alloca(self, s, f, ins):
        n = self.val(s, ins["n"])
        size = ins["size"] * n if isinstance(n, int) else None
        fd = self.mod["functions"][f.fn]
        oid = s.alloc(size, "%s#%d" % (short(fd["dem"]), ins["id"]), "alloca")
        f.allocas.append(oid)
        f.env[ins["id"]] = Ptr(oid, 0)
        f.ip += 1

    def i_load(self, s, f, ins):
        p = self.val(s, ins["ptr"])
        v = self.load(s, p, ins["size"], ins["ty"])
        if ins["ty"] in ("S", "A") and not isinstance(v, Agg):
            fo = ins.get("fo", [])
            if fo and isinstance(p, Ptr) and isinstance(p.off, int):
                d = {}
                ends = fo[1:] + [ins["size"]]
                for i, o in enumerate(fo):
                    x = self.read(s, p.obj, p.off + o, ends[i] - o) if p.obj in s.mem else None
                    if x is None:
                        for sz in (8, 4, 1):
                            if sz <= ends[i] - o and p.obj in s.mem:
                                x = self.read(s, p.obj, p.off + o, sz)
                                if x is not None:
                                    break
                    if isinstance(x, tuple):
                        x = 0
                    d[i] = x if x is not None else Top("aggload")
                v = Agg(d)
        if ins["ty"][0] == "i" and isinstance(v, (Rat,)):
            pass
        f.env[ins["id"]] = v
        f.ip += 1

    def i_store(self, s, f, ins):
        v = self.val(s, ins["val"])
        p = self.val(s, ins["ptr"])
        if isinstance(v, Agg) and ins.get("fo") and isinstance(p, Ptr):
            fo = ins["fo"]
            ends = fo[1:] + [ins["size"]]
            for i, o in enumerate(fo):
                self.store(s, Ptr(p.obj, padd(p.off, o)), ends[i] - o, v.f.get(i, 0))
            f.ip += 1
            return
        self.store(s, p, ins["size"], v)
        f.ip += 1

    def i_getelementptr(self, s, f, ins):
        b = self.val(s, ins["base"])
        if not isinstance(b, Ptr) or "off" not in ins:
            f.env[ins["id"]] = b if isinstance(b, Fn) else Top("gep")
            f.ip += 1
            return
        off = padd(b.off, ins["off"])
        for v, sc, ty in ins["var"]:
            x = self.val(s, v)
            x = self.norm(s, x, width(ty), True)
            if not isinstance(x, (int, Poly)):
                f.env[ins["id"]] = Ptr(b.obj, Poly.sym("T%s" % (self.site(s),))) if b.obj else Top("gep")
                f.ip += 1
                return
            off = padd(off, simp(P(x).scale(sc)) if isinstance(x, Poly) else x * sc)
        f.env[ins["id"]] = Ptr(b.obj, off)
        f.ip += 1

    def i_icmp(self, s, f, ins):
        a, b = self.val(s, ins["ops"][0]), self.val(s, ins["ops"][1])
        t = ins["oty"][0]
        if t == "V":
            f.env[ins["id"]] = Top("vec")
        else:
            f.env[ins["id"]] = self.icmp(s, ins["pred"], a, b, width(t), t == "p")
        f.ip += 1

    def truth(self, s, v):
        if isinstance(v, int):
            return bool(v & 1)
        if isinstance(v, Poly):
            return bool(self.boolize(s, v))
        return self.nd(s, "br", self.site(s), 0 if self.merge else s.steps)

    def i_select(self, s, f, ins):
        c = self.val(s, ins["ops"][0])
        a, b = ins["ops"][1], ins["ops"][2]
        if ins["oty"][0] == "V":
            f.env[ins["id"]] = Top("vec")
        else:
            f.env[ins["id"]] = self.val(s, a) if self.truth(s, c) else self.val(s, b)
        f.ip += 1

    def goto(self, s, f, b):
        back = b <= f.blk
        f.prev, f.blk, f.ip = f.blk, b, 0
        self.enter_block(s)
        if back and self.merge:
            k = self.state_key(s)
            if k in self.seen:
                s.ended = "merged"
                return
            self.seen.add(k)

    def state_key(self, s):
        fr = tuple((f.fn, f.blk, f.ip, f.prev, tuple(sorted((k, vkey(v)) for k, v in f.env.items()))) for f in s.frames)
        mem = tuple((i, o.name, o.alive, tuple(sorted((c, sz, vkey(v)) for c, (sz, v) in o.cells.items()))) for i, o in sorted(s.mem.items()) if o.kind != "const")
        tg = tuple(sorted((k, vkey(v)) for k, v in s.tags.items()))
        return hash((fr, mem, tg, tuple(sorted(s.known.items(), key=repr)))), fr[-1][:3]

    def i_br(self, s, f, ins):
        if "cond" in ins:
            t = self.truth(s, self.val(s, ins["cond"]))
            self.goto(s, f, ins["succ"][0 if t else 1])
        else:
            self.goto(s, f, ins["succ"][0])

    def i_switch(self, s, f, ins):
        c = self.val(s, ins["cond"])
        w = width(ins["cases"][0][0][1]) if ins["cases"] else 32
        for v, b in ins["cases"]:
            if isinstance(c, Top):
                t = self.nd(s, "sw", self.site(s), int(v[2]), 0 if self.merge else s.steps)
            else:
                t = self.icmp(s, "eq", c, int(v[2]), w, False)
            if t:
                self.goto(s, f, b)
                return
        self.goto(s, f, ins["default"])

    def i_phi(self, s, f, ins):
        f.ip += 1

    def i_ret(self, s, f, ins):
        v = self.val(s, ins["ops"][0]) if ins["ops"] else None
        fr = self.pop_frame(s)
        if self.on_event:
            self.on_event(s, "ret", fr)
        if not s.frames:
            s.result = v
            s.ended = "ret"
            return
        g = s.frames[-1]
        cal = self.mod["functions"][g.fn]["blocks"][g.blk][g.ip]
        if isinstance(fr.tag, tuple) and fr.tag[0] == "cont":
            fr.tag[1](self, s, v)
            return
        self.finish_call(s, cal, v)

    def conv(self, s, f, ins, kind):
        v = self.val(s, ins["ops"][0])
        ws, wd = width(ins["oty"][0]), width(ins["ty"])
        if isinstance(v, float) or ins["ty"] == "V":
            r = Top("conv")
        elif isinstance(v, (Ptr, Fn)):
            r = v if kind != "trunc" else Top("truncptr")
        elif not isinstance(v, (int, Poly)):
            r = v
        elif kind == "trunc":
            r = v & ((1 << wd) - 1) if isinstance(v, int) else simp(Poly({m: c for m, c in v.t.items() if c % (1 << wd)}), wd)
            if wd == 1 and isinstance(r, Poly):
                r = self.split(s, self.norm(s, v, ws, False), 1)[1]
                r = self.boolize(s, r) if isinstance(r, Poly) else r
        else:
            r = self.norm(s, v, ws, kind == "sext")
            if isinstance(r, int):
                r &= (1 << wd) - 1
        f.env[ins["id"]] = r
        f.ip += 1

    def i_trunc(self, s, f, ins):
        self.conv(s, f, ins, "trunc")

    def i_zext(self, s, f, ins):
        self.conv(s, f, ins, "zext")

    def i_sext(self, s, f, ins):
        self.conv(s, f, ins, "sext")

    def i_bitcast(self, s, f, ins):
        f.env[ins["id"]] = self.val(s, ins["ops"][0])
        f.ip += 1
    i_ptrtoint = i_bitcast
    i_freeze = i_bitcast

    def i_inttoptr(self, s, f, ins):
        v = self.val(s, ins["ops"][0])
        f.env[ins["id"]] = NULL if isinstance(v, int) and v == 0 else v
        f.ip += 1

    def i_extractvalue(self, s, f, ins):
        v = self.val(s, ins["ops"][0])
        for i in ins["idx"]:
            v = v.f.get(i, Top("ev")) if isinstance(v, Agg) else Top("ev")
        f.env[ins["id"]] = v
        f.ip += 1

    def i_insertvalue(self, s, f, ins):
        v = self.val(s, ins["ops"][0])
        x = self.val(s, ins["ops"][1])
        a = Agg(v.f if isinstance(v, Agg) else {})
        if len(ins["idx"]) == 1:
            a.f[ins["idx"][0]] = x
        f.env[ins["id"]] = a
        f.ip += 1

    def i_landingpad(self, s, f, ins):
        f.env[ins["id"]] = Agg({0: Top("exc"), 1: Top("sel")})
        f.ip += 1

    def i_resume(self, s, f, ins):
        self.pop_frame(s)
        self.throw(s, s.tags.get("exc"))

    def i_unreachable(self, s, f, ins):
        s.ended = "abort"

    def i_fence(self, s, f, ins):
        f.ip += 1

    def i_atomicrmw(self, s, f, ins):
        f.env[ins["id"]] = Top("atomic")
        f.ip += 1

    def i_cmpxchg(self, s, f, ins):
        f.env[ins["id"]] = Agg({0: Top("cx"), 1: Top("cx")})
        f.ip += 1

    def i_call(self, s, f, ins):
        cal = self.val(s, ins["callee"])
        args = [self.val(s, a[0]) for a in ins["args"]]
        for i, bv in enumerate(ins.get("byval", [])):
            pass
        if not isinstance(cal, Fn):
            self.unmodelled.add("indirect call at %s" % self.where(s))
            self.finish_call(s, ins, Top("icall"))
            return
        self.call(s, ins, cal.name, args)
    i_invoke = i_call

    def call(self, s, ins, name, args):
        h = self.handler(name)
        if h is not None:
            r = h(self, s, ins, args)
            if r is NotImplemented:
                pass
            elif r is CONTROL:
                return
            else:
                self.finish_call(s, ins, r)
                return
        fd = self.mod["functions"][name]
        if name.startswith("llvm."):
            self.finish_call(s, ins, self.intrinsic(s, name, ins, args))
            return
        if not fd["decl"]:
            self.push(s, name, args)
            self.enter_block(s)
            return
        r = self.builtin(s, name, fd, ins, args)
        if r is CONTROL:
            return
        self.finish_call(s, ins, r)

    def intrinsic(self, s, name, ins, a):
        n = name[5:]
        if n.startswith(("lifetime", "dbg", "assume", "invariant", "experimental", "donothing", "prefetch", "stackrestore", "va_", "trap", "stacksave")):
            return None
        if n.startswith(("memcpy", "memmove")):
            self.memcpy(s, a[0], a[1], a[2])
            return None
        if n.startswith("memset"):
            self.memset(s, a[0], a[1], a[2])
            return None
        if n.startswith("expect"):
            return a[0]
        if n.startswith(("umul.with", "uadd.with", "usub.with", "smul.with", "sadd.with", "ssub.with")):
            w = width(ins["args"][0][1])
            op = n[1:4]
            if all(isinstance(x, int) for x in a[:2]):
                x, y = (a[0], a[1]) if n[0] == "u" else (sgn(a[0], w), sgn(a[1], w))
                r = {"mul": x * y, "add": x + y, "sub": x - y}[op]
                ov = not (0 <= r < (1 << w)) if n[0] == "u" else not (-(1 << (w - 1)) <= r < (1 << (w - 1)))
                return Agg({0: r % (1 << w), 1: int(ov)})
            r = self.binop(s, op, a[0], a[1], w)
            return Agg({0: r, 1: Top("ovf")})
        if n.startswith(("umax", "umin", "smax", "smin")):
            w = width(ins["ty"])
            t = self.icmp(s, ("u" if n[0] == "u" else "s") + ("ge" if n[2] == "a" else "le"), a[0], a[1], w, False)
            return a[0] if t else a[1]
        if n.startswith("abs"):
            w = width(ins["ty"])
            x = self.norm(s, a[0], w, True)
            if isinstance(x, (int, Poly)):
                r = x if self.ge0(s, x) else -x
                return r % (1 << w) if isinstance(r, int) else r
            return x
        if n.startswith("objectsize"):
            return (1 << 64) - 1
        if n.startswith("is.constant"):
            return 0
        if n.startswith("eh.typeid"):
            return Top("typeid")
        if n.startswith(("ctlz", "cttz", "ctpop", "bswap")) and isinstance(a[0], int):
            w = width(ins["ty"])
            if n.startswith("ctlz"):
                return w - a[0].bit_length()
            if n.startswith("cttz"):
                return w if a[0] == 0 else (a[0] & -a[0]).bit_length() - 1
            if n.startswith("ctpop"):
                return bin(a[0]).count("1")
            return int.from_bytes(a[0].to_bytes(w // 8, "little"), "big")
        if n.startswith(("floor", "ceil", "log2", "log", "fabs", "sqrt", "round", "trunc", "pow")) and all(isinstance(x, float) for x in a):
            import math
            fn = n.split(".")[0]
            return float({"floor": math.floor, "ceil": math.ceil, "log2": math.log2, "log": math.log, "fabs": abs, "sqrt": math.sqrt, "round": round, "trunc": math.trunc}.get(fn, lambda *z: z[0])(a[0]))
        self.unmodelled.add(name)
        return Top(name)

    def heap(self, s, size, name):
        oid = s.alloc(size if isinstance(size, int) else size, name, "heap")
        if self.on_event:
            self.on_event(s, "alloc", (oid, size))
        return Ptr(oid, 0)

    def free(self, s, p, how):
        if isinstance(p, Ptr) and p.obj == 0:
            return
        if self.on_event:
            self.on_event(s, "free", (p, how))
        if isinstance(p, Ptr) and p.obj in s.mem:
            if not s.mem[p.obj].alive:
                self.oob.append((self.where(s), "double free of %s" % s.mem[p.obj].name, True))
            s.w(p.obj).alive = False

    def builtin(self, s, name, fd, ins, a):
        d = fd["dem"]
        if d.startswith(("operator new(", "operator new[](")) or name == "malloc":
            p = self.heap(s, a[0], ("malloc" if name == "malloc" else d.split("(")[0]) + "@" + self.where(s))
            return p
        if name == "calloc":
            n = a[0] * a[1] if isinstance(a[0], int) and isinstance(a[1], int) else None
            p = self.heap(s, n, "malloc(calloc)@" + self.where(s))
            if n:
                s.mem[p.obj].cells[0] = (n, ("Z",))
            return p
        if d.startswith(("operator delete(", "operator delete[](")) or name == "free":
            self.free(s, a[0], "free" if name == "free" else d.split("(")[0])
            return None
        if name == "memcpy" or name == "memmove":
            self.memcpy(s, a[0], a[1], a[2])
            return a[0]
        if name == "memset":
            self.memset(s, a[0], a[1] & 255 if isinstance(a[1], int) else a[1], a[2])
            return a[0]
        if name == "strlen":
            t = self.cstr(s, a[0])
            return len(t) if t is not None else Top("strlen")
        if name in ("__cxa_allocate_exception",):
            return Ptr(s.alloc(a[0] if isinstance(a[0], int) else None, "exception", "exc"), 0)
        if name == "__cxa_throw":
            if self.on_event:
                self.on_event(s, "throw", (a, self.where(s)))
            self.throw(s, (a[1], self.where(s)))
            return CONTROL
        if name in ("__cxa_rethrow",):
            self.throw(s, s.tags.get("exc"))
            return CONTROL
        if name in ("__cxa_begin_catch", "__cxa_get_exception_ptr"):
            return Top("exc")
        if name in ("__cxa_end_catch", "__cxa_free_exception", "__cxa_atexit", "__dso_handle", "__cxa_guard_release", "__cxa_guard_abort"):
            return 0 if name == "__cxa_atexit" else None
        if name == "__cxa_guard_acquire":
            return 1
        if fd["noreturn"] or name in ("abort", "exit", "__assert_fail", "__assert_rtn", "_exit") or d.startswith(("std::terminate", "std::__throw", "__clang_call_terminate")):
            if d.startswith("std::__throw"):
                self.throw(s, (Fn(name), self.where(s)))
                return CONTROL
            s.ended = "abort"
            s.tags["abort"] = (name, self.where(s))
            return CONTROL
        self.unmodelled.add(d)
        for x in a:
            if isinstance(x, Ptr):
                self.havoc(s, x.obj)
        return Top("call " + name)


class _Control:
    pass
CONTROL = _Control()
BIN = {"add", "sub", "mul", "shl", "lshr", "ashr", "and", "or", "xor", "udiv", "sdiv", "urem", "srem"}


def vkey(v):
    if isinstance(v, Poly):
        return v.key()
    if isinstance(v, Rat):
        return ("rat", v.n.key(), v.d.key())
    if isinstance(v, Top):
        return "T"
    if isinstance(v, Agg):
        return tuple(sorted((k, vkey(x)) for k, x in v.f.items()))
    if isinstance(v, Ptr):
        return ("p", v.obj, vkey(v.off))
    if isinstance(v, (set, frozenset)):
        return tuple(sorted(map(repr, v)))
    if isinstance(v, dict):
        return tuple(sorted((repr(k), vkey(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return tuple(vkey(x) for x in v)
    return repr(v)


def bitred(p):
    """b^2 = b for 0/1 symbols"""
    r = {}
    for m, c in p.t.items():
        m2 = tuple((sy, 1 if SY.lo[sy] == 0 and SY.hi[sy] == 1 else e) for sy, e in m)
        r[m2] = r.get(m2, 0) + c
    return Poly({m: c for m, c in r.items() if c})


def simp(p, w=None):
    if isinstance(p, int):
        return p if w is None else p % (1 << w)
    if p.is_const():
        c = p.cval()
        return c if w is None else c % (1 << w)
    return p


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


def padd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    return simp(P(a) + P(b))


def short(d):
    d = re.sub(r"\(.*", "", d)
    d = re.sub(r"<.*>", "<>", d)
    return d.split()[-1] if d.split() else d


# ---------- compiling

IRDUMP = None
WORK = os.environ.get("FFV_WORK", "/tmp/ffverif.%d" % os.getpid())


def irdump_path():
    global IRDUMP
    if IRDUMP is None:
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        IRDUMP = os.path.join(here, "build", "irdump")
        if not os.path.exists(IRDUMP):
            r = subprocess.run(["bash", os.path.join(here, "setup.sh")], stdout=subprocess.DEVNULL)
            if r.returncode:
                raise RuntimeError("setup.sh failed")
    return IRDUMP


class CompileError(Exception):
    pass


def compile_ir(src, flags=(), passes="mem2reg,simplifycfg<no-switch-to-lookup>", std="c++11", opt="-O0", lang=None):
    os.makedirs(WORK, exist_ok=True)
    base = os.path.join(WORK, os.path.basename(src).replace(".", "_") + "_%d_%d" % (os.getpid(), next(_ctr)))
    cmd = ["clang++-18", "-std=" + std, opt, "-Xclang", "-disable-O0-optnone", "-g", "-fno-vectorize", "-fno-slp-vectorize",
           "-fno-delete-null-pointer-checks", "-emit-llvm", "-c", "-w", "-o", base + ".bc", src] + list(flags)
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise CompileError(r.stderr[-4000:])
    if passes:
        r = subprocess.run(["/usr/lib/llvm-18/bin/opt", "-passes=" + passes, base + ".bc", "-o", base + ".2.bc"], capture_output=True, text=True)
        if r.returncode:
            raise CompileError(r.stderr[-4000:])
    else:
        os.rename(base + ".bc", base + ".2.bc")
    r = subprocess.run([irdump_path(), base + ".2.bc"], capture_output=True, text=True)
    if r.returncode:
        raise CompileError("irdump: " + r.stderr[-2000:])
    for x in (".bc", ".2.bc"):
        if os.path.exists(base + x):
            os.unlink(base + x)
    return json.loads(r.stdout)

_ctr = itertools.count()


def find_fn(mod, pat, decl=False):
    rx = re.compile(pat)
    return [n for n, d in mod["functions"].items() if rx.search(d["dem"]) and (decl or not d["decl"])]
