"""The generated C++ field class and the conversion functions: big integers are tracked as exact integer forms in which
the canonical representative of a residue is one bounded symbol, so that every result can be compared modulo the prime."""
import re
from absint import *
from ring import RingClient
from cfile import Witness
from fieldlib import Rendered, PRIMES
from report import REPO, ROOT, parallel
from text import TextMachine

S = Poly.sym
MONT, LONG = 0x40000000, 0x80000000


class KlassMachine(TextMachine):
    def __init__(self, mod, ren):
        TextMachine.__init__(self, mod)
        self.client = self.cl = RingClient(ren.q)
        self.ren, self.q, self.R, self.n = ren, ren.q, ren.R, ren.n
        self.meanings = []              # (residue, symbol)
        self.of = {}                    # symbol -> residue
        self.texts = []                 # numbers read from or written to text: (text or None, integer form, radix)
        self.opq = {}
        N = ren.name
        R = self.register
        R(r"^__gmpz_\w+", self.h_mpz)
        R(r"^%s_raw\w+\(" % N, self.h_raw)
        R(r"^%s_raw\w+$" % N, self.h_raw)
        R(r"^%s_(toNormal|toLongNormal|toMontgomery|copy|mul)(\(|$)" % N, self.h_elem)
        R(r"^sprintf$|^snprintf$", self.h_sprintf)
        R(r"^(__errno_location)$", self.h_errno)
        self.on_event = self.event
        self.misfree = []

    def event(self, s, kind, arg):
        if kind == "free" and isinstance(arg[0], Ptr) and arg[0].obj in s.mem:
            nm, how = s.mem[arg[0].obj].name, arg[1]
            if nm.startswith("malloc") != (how == "free") or ("[]" in nm) != ("[]" in how):
                self.misfree.append((self.where(s), "%s released with %s" % (nm.split("@")[0], how)))

    # ---- residues
    def can(self, v):
        """the integer in [0, q) with residue v (a Rat)"""
        v = v if isinstance(v, Rat) else Rat(v)
        n, d = v.n.mod(self.q), v.d.mod(self.q)
        if d.is_const():
            n = n.scale(pow(d.cval(), -1, self.q)).mod(self.q)
            d = P(1)
            if n.is_const():
                return n.cval() % self.q
            if len(n.t) == 1:
                (mo, c), = n.t.items()
                if c == 1 and len(mo) == 1 and mo[0][1] == 1:
                    lo, hi = SY.lo[mo[0][0]], SY.hi[mo[0][0]]
                    if lo is not None and lo >= 0 and hi is not None and hi < self.q:
                        return n                # already a canonical symbol
        r = Rat(n, d)
        for w, sym in self.meanings:
            if (w.n * r.d - r.n * w.d).mod(self.q).is_zero():
                return sym
        sym = S("canon%d" % len(self.meanings), 0, self.q - 1)
        self.meanings.append((r, sym))
        self.of[next(iter(sym.t))[0][0]] = r
        return sym

    def res(self, p):
        """residue of an integer form"""
        p = P(p)
        tot = Rat(P(0))
        for mo, c in p.t.items():
            x = Rat(P(c % self.q))
            for sy, e in mo:
                f = self.of.get(sy, Rat(Poly({((sy, 1),): 1})))
                for _ in range(e):
                    x = x * f
            tot = tot + x
        return Rat(tot.n.mod(self.q), tot.d.mod(self.q))

    def same(self, a, b):
        a, b = self.res(a), self.res(b)
        return (a.n * b.d - b.n * a.d).mod(self.q).is_zero()

    def canonical(self, s, v):
        v = P(v)
        return self.proves(s, v) and self.proves(s, P(self.q - 1) - v)

    def opaque(self, *key):
        """an unbounded symbol for a function of integer forms"""
        k = tuple(x.key() if isinstance(x, Poly) else P(x).key() if isinstance(x, int) else x for x in key)
        if k not in self.opq:
            self.opq[k] = S("%s#%d" % (key[0], len(self.opq)))
        return self.opq[k]

    def bounded(self, lo, hi, *key):
        k = tuple(x.key() if isinstance(x, Poly) else P(x).key() if isinstance(x, int) else x for x in key)
        if k not in self.opq:
            self.opq[k] = S("%s#%d" % (key[0], len(self.opq)), lo, hi)
        return self.opq[k]

    # ---- word blocks
    def block(self, s, p, what):
        v = self.load(s, p, 8 * self.n)
        if isinstance(v, tuple):
            v = 0
        if isinstance(v, Rat):
            v = self.can(v)
        if not isinstance(v, (int, Poly)):
            if str(getattr(v, "why", "")).startswith("uninit") and self.real(s):
                self.client_uninit.append((self.where(s), "%s reads words that were never written" % what))
                return self.opaque("uninit", self.where(s))
            raise Undecided("words not tracked at %s (%s)" % (self.where(s), v))
        return v

    def real(self, s):
        return Witness(self, s).found is not None

    def canon_block(self, s, p, what):
        v = self.block(s, p, what)
        if not self.canonical(s, v):
            lo, hi = self.rng(s, P(v))
            if lo is not None and hi is not None and self.real(s):
                self.client_uninit.append((self.where(s), "%s is given a value outside [0, q): %s in [%d, %d]" % (what, v, lo, hi)))
            else:
                raise Undecided("%s of a value not known to be reduced" % what)
        return v

    def word_block(self, s, p):
        v = self.block(s, p, "rawToMontgomery")
        if not (self.proves(s, P(v)) and self.proves(s, P((1 << 64) - 1) - P(v))):
            raise Undecided("a number not known to be a machine word")
        return v

    def put_block(self, s, p, v):
        self.store(s, p, 8 * self.n, v)

    def h_raw(self, m, s, ins, a):
        dem = self.mod["functions"][self.val(s, ins["callee"]).name]["dem"]
        op = re.match(r"^\w+?_raw(\w+)", dem).group(1)
        B = lambda i: self.res(self.canon_block(s, a[i], "raw" + op))
        if op in ("Copy",):
            self.put_block(s, a[0], self.block(s, a[1], "rawCopy"))
            return None
        if op == "Swap":
            x, y = self.block(s, a[0], op), self.block(s, a[1], op)
            self.put_block(s, a[0], y)
            self.put_block(s, a[1], x)
            return None
        if op == "IsEq":
            return int(self.client.is_zero(self, s, B(0) - B(1)))
        if op == "IsZero":
            return int(self.client.is_zero(self, s, B(0)))
        if op == "Zero":
            self.put_block(s, a[0], 0)
            return None
        R = Rat(P(self.R))
        if op in ("Add", "Sub", "MMul"):
            x, y = B(1), B(2)
            v = x + y if op == "Add" else x - y if op == "Sub" else x * y / R
        elif op == "Neg":
            v = -B(1)
        elif op == "MSquare":
            x = B(1)
            v = x * x / R
        elif op == "MMul1":
            v = B(1) * self.res(self.norm(s, a[2], 64, False)) / R
        elif op == "ToMontgomery":
            # P10 proves the conversion of any machine word for one-word moduli
            v = (self.res(self.word_block(s, a[1])) if self.n == 1 else B(1)) * R
        elif op == "FromMontgomery":
            v = B(1) / R
        else:
            raise Undecided("raw%s not modelled" % op)
        self.put_block(s, a[0], self.can(v))
        return None

    # ---- tagged elements {int32 shortVal, uint32 type, words}
    def at(self, p, o):
        return Ptr(p.obj, padd(p.off, o))

    def elem_value(self, s, p):
        """(type, residue) of a tagged element"""
        t = self.load(s, self.at(p, 4), 4)
        if isinstance(t, Poly) and t.is_const():
            t = t.cval()
        if not isinstance(t, int):
            raise Undecided("element type not tracked")
        if t & LONG:
            v = self.res(self.canon_block(s, self.at(p, 8), "element"))
            return t, (v / Rat(P(self.R)) if t & MONT else v)
        v = self.load(s, p, 4)
        if not isinstance(v, (int, Poly)):
            raise Undecided("short value not tracked")
        return t, self.res(self.norm(s, v, 32, True))

    def put_elem(self, s, p, t, short=None, words=None):
        self.store(s, self.at(p, 4), 4, t)
        self.store(s, p, 4, short if short is not None else self.opaque("stale", p.obj))
        self.put_block(s, self.at(p, 8), words if words is not None else self.opaque("stalewords", p.obj))

    def h_elem(self, m, s, ins, a):
        op = re.match(r"^\w+?_(\w+)", self.mod["functions"][self.val(s, ins["callee"]).name]["dem"]).group(1)
        if op == "copy":
            self.memcpy(s, a[0], a[1], 8 + 8 * self.n)
            return None
        if op == "mul":
            (_, x), (_, y) = self.elem_value(s, a[1]), self.elem_value(s, a[2])
            self.put_elem(s, a[0], LONG | MONT, None, self.can(x * y * Rat(P(self.R))))
            return None
        t, v = self.elem_value(s, a[1])
        if op == "toNormal" and not t & LONG:
            self.put_elem(s, a[0], 0, self.norm(s, self.load(s, a[1], 4), 32, True))
        elif op in ("toNormal", "toLongNormal"):
            self.put_elem(s, a[0], LONG, None, self.can(v))
        else:
            self.put_elem(s, a[0], LONG | MONT, None, self.can(v * Rat(P(self.R))))
        return None

    # ---- text
    def h_sprintf(self, m, s, ins, a):
        nm = self.val(s, ins["callee"]).name
        dst, fmt, rest = (a[0], a[1], a[2:]) if nm == "sprintf" else (a[0], a[2], a[3:])
        f = self.cstr(s, fmt)
        if f not in ("%d", "%i", "%ld", "%u", "%lu") or len(rest) != 1:
            raise Undecided("sprintf format %r" % f)
        w = 64 if "l" in f else 32
        v = self.norm(s, rest[0], w, f[-1] != "u")
        self.write_number(s, dst, v, 10)
        return 1

    def write_number(self, s, p, v, radix):
        t = b"%d" % (70000 + len(self.texts))
        self.texts.append((None, v, radix))
        for i, c in enumerate(t + b"\0"):
            self.store(s, self.at(p, i), 1, c)

    # ---- GMP
    def live(self, s):
        return s.tags.get("mpzs", frozenset())

    def mk(self, s, p):
        if not isinstance(p, Ptr) or not isinstance(self.offset(s, p), int):
            raise Undecided("unresolved GMP integer")
        return (p.obj, self.offset(s, p))

    def mget(self, s, p):
        k = self.mk(s, p)
        if k not in self.live(s):
            self.crash(s, "uses a GMP integer that is not initialised")
            return 0
        c = s.mem[k[0]].cells.get(k[1])
        if c is None or c[0] != 16 or not isinstance(c[1], (int, Poly)):
            raise Undecided("GMP value not tracked at %s" % self.where(s))
        return c[1]

    def mput(self, s, p, v, init=False):
        k = self.mk(s, p)
        if init and k in self.live(s):
            self.crash(s, "initialises a GMP integer twice, losing the first")
        if not init and k not in self.live(s):
            self.crash(s, "assigns a GMP integer that is not initialised")
        s.tags["mpzs"] = self.live(s) | {k}
        self.store(s, p, 16, simp(v) if isinstance(v, Poly) else v)

    def leaks(self, s, ignore=()):
        out = TextMachine.leaks(self, s, ignore)
        for k in self.live(s):
            o = s.mem.get(k[0])
            if o is None or o.kind == "alloca":
                out.append("a GMP integer")
        return out

    def modulo(self, s, x, m):
        if m == self.q:
            if self.canonical(s, x):
                return x
            return self.can(self.res(x))
        if isinstance(x, int) and isinstance(m, int) and m:
            return x % abs(m)
        if isinstance(x, (int, Poly)) and isinstance(m, (int, Poly)):
            self.nonzero(s, m)
            return self.bounded(0, self.q - 1, "fdiv_r", x, m) if self.canonical(s, m) else self.opaque("fdiv_r", x, m)
        raise Undecided("remainder")

    def nonzero(self, s, m):
        m = P(m)
        if not self.ge0(s, m - 1) and not self.ge0(s, -m - 1):
            self.stop(s, "divides by zero")

    def stop(self, s, what):
        s.ended = "abort"
        s.tags["abort"] = (what, self.where(s))

    def h_mpz(self, m, s, ins, a):
        op = re.search(r"__gmpz_(\w+)", self.mod["functions"][self.val(s, ins["callee"]).name]["dem"]).group(1)
        G = lambda i: self.mget(s, a[i])
        S64 = lambda i: self.norm(s, a[i], 64, True)
        U64 = lambda i: self.norm(s, a[i], 64, False)
        put = lambda v, init=False: self.mput(s, a[0], v, init)

        def word(v):
            if not isinstance(v, (int, Poly)):
                raise Undecided("mpz operand not tracked")
            return v
        if op in ("init", "init2"):
            put(0, True)
        elif op == "init_set":
            put(G(1), True)
        elif op in ("init_set_ui", "set_ui"):
            put(word(U64(1)), op[0] == "i")
        elif op in ("init_set_si", "set_si"):
            put(word(S64(1)), op[0] == "i")
        elif op == "set":
            put(G(1))
        elif op in ("init_set_str", "set_str"):
            t = "".join(map(chr, self.zstr(s, a[1])))
            radix = self.norm(s, a[2], 32, True)
            put(self.number_of(t, radix), op[0] == "i")
            return 0
        elif op == "clear":
            k = self.mk(s, a[0])
            if k not in self.live(s):
                self.crash(s, "clears a GMP integer that is not initialised")
            s.tags["mpzs"] = self.live(s) - {k}
            s.w(k[0]).cells.pop(k[1], None)
        elif op in ("add", "sub", "mul"):
            x, y = P(G(1)), P(G(2))
            put(x + y if op == "add" else x - y if op == "sub" else x * y)
        elif op in ("add_ui", "sub_ui", "mul_ui"):
            x, y = P(G(1)), P(word(U64(2)))
            put(x + y if op == "add_ui" else x - y if op == "sub_ui" else x * y)
        elif op == "ui_sub":
            put(P(word(U64(1))) - P(G(2)))
        elif op == "neg":
            put(-P(G(1)))
        elif op == "mul_2exp":
            put(P(G(1)).scale(1 << a[2]))
        elif op in ("mod", "fdiv_r"):
            put(self.modulo(s, G(1), G(2)))
        elif op in ("fdiv_q", "tdiv_q"):
            x, y = G(1), G(2)
            if op[0] == "t" and not (self.canonical(s, x) and self.canonical(s, y)):
                raise Undecided("truncating division")
            self.nonzero(s, y)
            put(self.bounded(0, self.q - 1, "fdiv_q", x, y) if self.canonical(s, x) and self.canonical(s, y) else self.opaque("fdiv_q", x, y))
        elif op == "tdiv_r":
            x, y = G(1), G(2)
            if not (self.canonical(s, x) and self.canonical(s, y)):
                raise Undecided("truncating division")
            put(self.modulo(s, x, y))
        elif op == "powm":
            x, e, y = G(1), G(2), G(3)
            if y != self.q:
                raise Undecided("power modulo something else")
            if isinstance(e, int):
                v = Rat(P(1))
                for _ in range(min(e, 64)):
                    v = v * self.res(x)
                if e > 64:
                    raise Undecided("large constant power")
                put(self.can(v))
            else:
                put(self.bounded(0, self.q - 1, "powm", self.can(self.res(x)), e))
        elif op == "invert":
            x, y = G(1), G(2)
            if y != self.q:
                raise Undecided("inverse modulo something else")
            r = self.res(x)
            if self.client.is_zero(self, s, r):
                put(self.opaque("undefined", self.where(s)))
                return 0
            put(self.can(Rat(P(1)) / r))
            return 1
        elif op in ("fits_sint_p", "fits_slong_p"):
            x = P(G(0))
            b = 31 if "sint" in op else 63
            return int(self.ge0(s, x + (1 << b)) and self.ge0(s, P((1 << b) - 1) - x))
        elif op in ("get_si", "get_ui"):
            x = P(G(0))
            lo, hi = (-(1 << 63), (1 << 63) - 1) if op == "get_si" else (0, M64 - 1)
            if not (self.proves(s, x - lo) and self.proves(s, -x + hi)):
                raise Undecided("%s of a value that may not fit" % op)
            return x.cval() % M64 if x.is_const() else x
        elif op in ("cmp", "cmp_ui", "cmp_si"):
            d = P(G(0)) - P(G(1) if op == "cmp" else word(U64(1) if op == "cmp_ui" else S64(1)))
            if self.ge0(s, d - 1):
                return 1
            return (1 << 32) - 1 if self.ge0(s, -d - 1) else 0
        elif op == "sizeinbase":
            x = G(0)
            if isinstance(x, int) and a[1] == 2:
                return max(1, abs(x).bit_length())
            raise Undecided("sizeinbase")
        elif op == "import":
            put(self.imported(s, a))
        elif op == "export":
            self.exported(s, a)
            return a[0]
        elif op == "get_str":
            radix = self.norm(s, a[1], 32, True)
            x = G(2)
            p = a[0]
            if not isinstance(p, Ptr) or p.obj == 0:
                p = self.heap(s, 4096, "malloc@" + self.where(s))
            self.write_number(s, p, x, radix)
            return p
        else:
            raise Undecided("mpz_%s not modelled" % op)
        return None

    def number_of(self, t, radix):
        return self.bounded(-(1 << 600), 1 << 600, "number", t + "@%s" % radix)

    def params(self, s, a):
        v = [self.norm(s, x, 32, True) for x in a]
        if any(not isinstance(x, int) for x in v):
            raise Undecided("mpz transfer parameters not constant")
        return v

    def imported(self, s, a):
        """mpz_import(r, count, order, size, endian, nails, data)"""
        order, endian = self.params(s, (a[2], a[4]))
        count, size, nails, p = a[1], a[3], a[5], a[6]
        if not all(isinstance(x, int) for x in (count, size, nails)) or nails:
            raise Undecided("mpz_import parameters")
        n = count * size
        if n > 1 << 16:
            self.crash(s, "imports %d bytes" % n)
            return 0
        little = (order == -1 or count == 1) and (endian in (0, -1) or size == 1)
        big = (order >= 0 or count == 1) and (endian == 1 or size == 1)
        if n == 0:
            return 0
        c = s.mem[p.obj].cells.get(self.offset(s, p)) if isinstance(p, Ptr) and p.obj in s.mem else None
        if c and isinstance(c[1], BE):
            self.access(s, p, n, False)
            if big and c[0] == n:
                return c[1].v
            return self.opaque("bytes in another order", self.where(s), c[1].v)
        if little:
            v = self.load(s, p, n)
            if isinstance(v, tuple):
                return 0
            if isinstance(v, Top) and str(v.why).startswith("uninit") and self.real(s):
                self.client_uninit.append((self.where(s), "imports bytes that were never written"))
                return 0
            if not isinstance(v, (int, Poly)):
                raise Undecided("import of untracked bytes")
            return self.norm(s, v, 8 * n, False)
        v = 0
        for i in range(n):
            if big:
                j = n - 1 - i
            else:                               # mixed: words in one order, bytes within them in the other
                w, b = divmod(i, size)
                j = (count - 1 - w if order >= 0 else w) * size + (size - 1 - b if endian == 1 else b)
            x = self.load(s, self.at(p, j), 1, "i8")
            if not isinstance(x, (int, Poly)):
                raise Undecided("import of untracked bytes")
            v = P(v) + P(self.norm(s, x, 8, False)).scale(1 << (8 * i))
        return simp(P(v))

    def exported(self, s, a):
        """mpz_export(data, countp, order, size, endian, nails, x): leading zero words are not written"""
        order, endian = self.params(s, (a[2], a[4]))
        p, size, nails, x = a[0], a[3], a[5], self.mget(s, a[6])
        if not isinstance(size, int) or nails or not isinstance(p, Ptr):
            raise Undecided("mpz_export parameters")
        x = P(x)
        if not self.proves(s, x):
            if not self.ge0(s, x):
                raise Undecided("export of a negative number")
        lo, hi = self.rng(s, x)
        if x.is_const() and x.cval() == 0:
            return
        if not x.is_const() and not self.proves(s, x - 1):
            if not self.ge0(s, x - 1):
                return                          # nothing is written for zero
        if hi is None:
            raise Undecided("export of an unbounded number")
        most = (hi.bit_length() + 8 * size - 1) // (8 * size)
        if order >= 0 and size * most > size and not x.is_const():
            raise Undecided("export most significant word first")
        if order < 0 and (endian in (0, -1)):
            old = self.load(s, p, size * most) if most else 0
            o, off = self.access(s, p, size * most, True)
            if o is None:
                return
            if old == 0 or isinstance(old, tuple):
                self.store(s, p, size * most, x)
                return
            if lo is not None and lo.bit_length() > 8 * size * (most - 1):
                self.store(s, p, size * most, x)
                return
            # the upper words keep whatever they held
            self.store(s, p, size * most, self.opaque("stale upper words", self.where(s), x))
            return
        if most == 1 and endian == 1:
            o, off = self.access(s, p, size, True)
            if o is None:
                return
            self.store(s, p, size, BE(x))
            return
        raise Undecided("export in this order")


class BE:
    """bytes holding an integer most significant byte first"""

    def __init__(self, v):
        self.v = v


MODS = {}


def load(key):
    if key not in MODS:
        ren = Rendered(key)
        tu = os.path.join(ren.dir, "klass_tu_%d.cpp" % os.getpid())
        N = ren.name
        open(tu, "w").write('#include <string>\n#include <new>\ntemplate class std::basic_string<char>;\n#include "%s"\n' % ren.path(".cpp") + DRIVER.replace("FR", N))
        MODS[key] = (ren, compile_ir(tu, ["-I", ren.dir]))
    return MODS[key]


DRIVER = r"""
typedef RawFR K; typedef RawFR::Element E; typedef FRElement T;
extern "C" {
unsigned long d_size() { return sizeof(K); }
unsigned long d_tsize() { return sizeof(T); }
void d_ctor(void *m) { new (m) K(); }
const E *d_zero(K &k) { return &k.zero(); }
const E *d_one(K &k) { return &k.one(); }
const E *d_negOne(K &k) { return &k.negOne(); }
void d_unstr(std::string *s) { using std::string; s->~string(); }
void d_fromString(K &k, E &r, std::string &s, uint32_t radix) { k.fromString(r, s, radix); }
void d_fromString10(K &k, E &r, std::string &s) { k.fromString(r, s); }
void d_toString(K &k, std::string *s, E &e, uint32_t radix) { new (s) std::string(k.toString(e, radix)); }
void d_toString10(K &k, std::string *s, E &e) { new (s) std::string(k.toString(e)); }
void d_set(K &k, E &r, int v) { k.set(r, v); }
void d_setv(K &k, E &r, int v) { r = k.set(v); }
void d_fromUI(K &k, E &r, unsigned long v) { k.fromUI(r, v); }
void d_inv(K &k, E &r, E &a) { k.inv(r, a); }
void d_div(K &k, E &r, E &a, E &b) { k.div(r, a, b); }
void d_exp(K &k, E &r, E &a, uint8_t *s, unsigned n) { k.exp(r, a, s, n); }
void d_toMpz(K &k, mpz_ptr r, E &a) { k.toMpz(r, a); }
void d_fromMpz(K &k, E &r, mpz_ptr a) { k.fromMpz(r, a); }
int d_toRprBE(K &k, E &e, uint8_t *d, int n) { return k.toRprBE(e, d, n); }
int d_fromRprBE(K &k, E &e, uint8_t *d, int n) { return k.fromRprBE(e, d, n); }
int d_bytes(K &k) { return k.bytes(); }
void d_add(K &k, E &r, E &a, E &b) { k.add(r, a, b); } void d_sub(K &k, E &r, E &a, E &b) { k.sub(r, a, b); } void d_mul(K &k, E &r, E &a, E &b) { k.mul(r, a, b); }
void d_addv(K &k, E &r, E &a, E &b) { r = k.add(a, b); } void d_subv(K &k, E &r, E &a, E &b) { r = k.sub(a, b); } void d_mulv(K &k, E &r, E &a, E &b) { r = k.mul(a, b); }
void d_addil(K &k, E &r, int a, E &b) { r = k.add(a, b); } void d_subil(K &k, E &r, int a, E &b) { r = k.sub(a, b); } void d_mulil(K &k, E &r, int a, E &b) { r = k.mul(a, b); }
void d_addir(K &k, E &r, E &a, int b) { r = k.add(a, b); } void d_subir(K &k, E &r, E &a, int b) { r = k.sub(a, b); } void d_mulir(K &k, E &r, E &a, int b) { r = k.mul(a, b); }
void d_neg(K &k, E &r, E &a) { k.neg(r, a); } void d_square(K &k, E &r, E &a) { k.square(r, a); } void d_copy(K &k, E &r, E &a) { k.copy(r, a); }
void d_negv(K &k, E &r, E &a) { r = k.neg(a); } void d_squarev(K &k, E &r, E &a) { r = k.square(a); }
void d_mul1(K &k, E &r, E &a, uint64_t b) { k.mul1(r, a, b); }
void d_toM(K &k, E &r, E &a) { k.toMontgomery(r, a); } void d_fromM(K &k, E &r, E &a) { k.fromMontgomery(r, a); }
void d_swap(K &k, E &a, E &b) { k.swap(a, b); }
int d_eq(K &k, E &a, E &b) { return k.eq(a, b); } int d_isZero(K &k, E &a) { return k.isZero(a); }
void t_str2element(T *r, const char *s) { FR_str2element(r, s); }
char *t_element2str(T *a) { return FR_element2str(a); }
void t_idiv(T *r, T *a, T *b) { FR_idiv(r, a, b); }
void t_mod(T *r, T *a, T *b) { FR_mod(r, a, b); }
void t_pow(T *r, T *a, T *b) { FR_pow(r, a, b); }
void t_inv(T *r, T *a) { FR_inv(r, a); }
void t_div(T *r, T *a, T *b) { FR_div(r, a, b); }
}
"""


class KC:
    def __init__(self, key):
        self.ren, mod = load(key)
        self.m = m = KlassMachine(mod, self.ren)
        r = self.ren
        s = m.new_state()
        for nm, v in (("q", r.q), ("R2", r.R ** 2 % r.q), ("R3", r.R ** 3 % r.q)):
            g = m.goid.get("%s_%s" % (r.name, nm))
            if g is None:
                continue
            s.w(g).cells = {0: (4, 0), 4: (4, LONG), 8: (8 * r.n, v)}
            s.mem[g].kind = "input"
        self.obj = Ptr(s.alloc(m.run(m.new_state(), "d_size", [])[0].result, "field", "input"), 0)
        fin = m.run(s, "d_ctor", [self.obj])
        ok = [x for x in fin if x.ended == "ret"]
        if len(ok) != 1 or len(fin) != 1:
            raise Undecided("constructor outcomes: %s" % [(x.ended, x.tags.get("crash")) for x in fin])
        self.base = ok[0]
        self.base.ended = None

    def raw(self, s, v=None, name="element"):
        """a field element in memory; v: its residue"""
        m = self.m
        o = s.alloc(8 * m.n, name, "heap")
        s.mem[o].kind = "input"
        if v is not None:
            s.mem[o].cells[0] = (8 * m.n, m.can((v if isinstance(v, Rat) else Rat(P(v))) * Rat(P(m.R))))
        else:
            s.mem[o].kind = "alloca0"
        return Ptr(o, 0)

    def read_raw(self, s, p):
        m = self.m
        v = m.block(s, p, "result")
        return v, m.res(v) / Rat(P(m.R))

    def string(self, s, text):
        o = s.alloc(32, "text", "input")
        q, base = o, 16
        if len(text) >= 16:
            q, base = s.alloc(len(text) + 1, "characters", "input"), 0
            s.mem[o].cells[16] = (8, len(text))
        s.mem[o].cells[0] = (8, Ptr(q, base))
        s.mem[o].cells[8] = (8, len(text))
        for i, c in enumerate(text.encode() + b"\0"):
            s.mem[q].cells[base + i] = (1, c)
        return Ptr(o, 0)


def req(m, a, b):
    return (a.n * b.d - b.n * a.d).mod(m.q).is_zero()


def where(m, r, d):
    for t in ("crash", "exc", "abort"):
        if r.tags.get(t):
            return r.tags[t][0] if t == "crash" else r.tags[t][1]
    return d


def vanishes(m, r, n):
    """is the residue polynomial n zero on every valuation allowed in state r?"""
    n = n.mod(m.q)
    if n.is_zero():
        return True
    pins = [z.n if isinstance(z, Rat) else z for z in r.zero]
    seen = set()
    for cond, truth in r.facts:
        if cond[0] != "ge0":
            continue
        for sy in P(cond[1]).syms():
            if sy in seen:
                continue
            seen.add(sy)
            x = Poly({((sy, 1),): 1})
            lo, hi = m.rng(r, x)
            if lo is not None and lo == hi:
                f = m.of.get(sy, Rat(x))
                pins.append((f.n - f.d.scale(lo)).mod(m.q))
    for z in pins:
        if z.is_zero():
            continue
        if n.divexact(z, m.q) is not None:
            return True
        lin = [(mo, c) for mo, c in z.t.items() if mo]
        if len(lin) == 1 and len(lin[0][0]) == 1 and lin[0][0][0][1] == 1:
            sy, c = lin[0][0][0][0], lin[0][1]
            val = -z.t.get((), 0) * pow(c, -1, m.q) % m.q
            n = n.subst({sy: P(val)}).mod(m.q)
            if n.is_zero():
                return True
    return False


def equal(m, r, a, b):
    return vanishes(m, r, a.n * b.d - b.n * a.d)


class Unit:
    def __init__(self, check, key):
        self.c, self.key = check, key
        self.k = KC(key)
        self.m = self.k.m

    def run(self, rule, key, fn, args, s, heap_result=False):
        """outcomes that return; faults are reported here"""
        m, c = self.m, self.c
        m.oob, m.client_uninit, m.misfree = [], [], []
        try:
            fin = m.run(s, fn, args)
        except Undecided as e:
            c.undecided(rule, key, e)
            return []
        c.count("calls analysed")
        for x in m.unmodelled:
            if x not in c.notes:
                c.notes.append("not modelled: " + x)
        for w, t in m.client_uninit:
            c.bad("defined", key, w, t)
        for w, t in m.misfree:
            c.bad("resources", key, w, t)
        out = []
        for r in fin:
            if r.ended in ("crash", "endless"):
                if Witness(m, r).found:
                    c.bad("defined", key, *r.tags["crash"])
                continue
            if r.ended != "ret":
                if r.zero or "divides by zero" in str(r.tags.get("abort")):
                    continue                                    # only for a zero divisor
                if Witness(m, r).found:
                    c.bad(rule, key, where(m, r, fn), "does not return (%s)" % r.ended)
                continue
            lk = [x for x in m.leaks(r)]
            if heap_result and lk:
                lk.remove(next((x for x in lk if "GMP" not in x), lk[0]))
            base = [x for x in m.leaks(self.k.base)]
            for b in base:
                if b in lk:
                    lk.remove(b)
            if lk:
                c.bad("resources", key, fn, "never released: " + ", ".join(lk[:2]))
            else:
                c.ok("resources", key)
            if not m.client_uninit:
                c.ok("defined", key)
            out.append(r)
        return out

    def raw_result(self, rule, key, r, p, want, fn):
        m, c = self.m, self.c
        m.client_uninit = []
        try:
            v, got = self.k.read_raw(r, p)
        except Undecided as e:
            c.undecided(rule, key, e)
            return
        want = want if isinstance(want, Rat) else Rat(P(want))
        if m.client_uninit:
            c.bad(rule, key, fn, "the result is not fully written")
        elif not equal(m, r, got, want):
            if r.zero:
                c.undecided(rule, key, "result under a zero assumption")
            else:
                c.bad(rule, key, fn, "the result is %r, expected %r" % (got, want))
        elif not m.canonical(r, v):
            c.bad(rule, key, fn, "the result is not reduced below the modulus")
        else:
            c.ok(rule, key)

    def unchanged(self, key, r, ps):
        m = self.m
        for i, (p, v) in enumerate(ps):
            now = self.k.read_raw(r, p)[1]
            self.c.check("defined", "%s operand %d" % (key, i + 1), equal(m, r, now, v), key, "the operand is changed to %r" % now)


def unit(check, tier, u):
    key, part = u
    U = Unit(check, key)
    {"arith": arith, "convert": convert, "power": power, "tagged": tagged}[part](U, tier)


def arith(U, tier):
    m, k, key = U.m, U.k, U.key
    X, Y = Rat(S("X")), Rat(S("Y"))
    s = k.base
    for fn, want in (("zero", 0), ("one", 1), ("negOne", -1)):
        r = m.run(s.clone(), "d_" + fn, [k.obj])[0]
        U.raw_result("constant", "%s %s" % (key, fn), r, r.result, want, "Raw::" + fn)
    two = [("add", X + Y), ("sub", X - Y), ("mul", X * Y), ("div", X / Y)]
    for op, want in two:
        for al in ((0, 1, 2), (0, 0, 2), (0, 1, 0), (0, 1, 1), (0, 0, 0)):
            for form in ("", "v"):
                if op == "div" and form:
                    continue
                s = k.base.clone()
                s.tags["nz"] = s.tags.get("nz", ()) + (S("X"), S("Y"))
                objs, ps = {}, []
                for i, g in enumerate(al):
                    if g not in objs:
                        objs[g] = k.raw(s, None)
                    ps.append(objs[g])
                for p, v in ((ps[2], Y), (ps[1], X)):
                    s.mem[p.obj].cells[0] = (8 * m.n, m.can(v * Rat(P(m.R))))
                w = want if al[1] != al[2] else {"add": X + X, "sub": Rat(P(0)), "mul": X * X, "div": Rat(P(1))}[op]
                ik = "%s %s%s alias %s" % (key, op, " by value" if form else "", al)
                for r in U.run("arithmetic", ik, "d_" + op + form, [k.obj] + ps, s):
                    U.raw_result("arithmetic", ik, r, ps[0], w, "Raw::" + op)
                    U.unchanged(ik, r, [(p, v) for p, v, g in ((ps[1], X, al[1]), (ps[2], Y if al[1] != al[2] else X, al[2])) if g != al[0]])
    one = [("neg", -X), ("negv", -X), ("square", X * X), ("squarev", X * X), ("copy", X), ("inv", Rat(P(1)) / X), ("toM", X * Rat(P(m.R))), ("fromM", X / Rat(P(m.R)))]
    for op, want in one:
        for al in ((0, 1), (0, 0)):
            s = k.base.clone()
            s.tags["nz"] = s.tags.get("nz", ()) + (S("X"),)
            a = k.raw(s, X)
            p = a if al[1] == 0 else k.raw(s)
            ik = "%s %s alias %s" % (key, op, al)
            for r in U.run("arithmetic", ik, "d_" + op, [k.obj, p, a], s):
                U.raw_result("arithmetic", ik, r, p, want, "Raw::" + op)
                if al[1]:
                    U.unchanged(ik, r, [(a, X)])
    v = S("v", -(1 << 31), (1 << 31) - 1)
    vals = [v, 0, 1, -1, -(1 << 31), (1 << 31) - 1]
    for val in vals:
        enc = val if isinstance(val, Poly) else val & 0xffffffff
        for side in "lr":
            for op, f in (("add", lambda a, b: a + b), ("sub", lambda a, b: a - b), ("mul", lambda a, b: a * b)):
                s = k.base.clone()
                a, p = k.raw(s, X), k.raw(s)
                ik = "%s %s with the machine integer %s on the %s" % (key, op, val, "left" if side == "l" else "right")
                w = f(Rat(P(val)), X) if side == "l" else f(X, Rat(P(val)))
                for r in U.run("arithmetic", ik, "d_%si%s" % (op, side), [k.obj, p] + ([enc, a] if side == "l" else [a, enc]), s):
                    U.raw_result("arithmetic", ik, r, p, w, "Raw::" + op)
        for fn in ("set", "setv"):
            s = k.base.clone()
            p = k.raw(s)
            ik = "%s %s %s" % (key, fn, val)
            for r in U.run("conversion", ik, "d_" + fn, [k.obj, p, enc], s):
                U.raw_result("conversion", ik, r, p, val, "Raw::set")
    u = S("u", 0, (1 << 64) - 1)
    for val in (u, 0, 1, (1 << 64) - 1):
        s = k.base.clone()
        p = k.raw(s)
        for r in U.run("conversion", "%s fromUI %s" % (key, val), "d_fromUI", [k.obj, p, val], s):
            U.raw_result("conversion", "%s fromUI %s" % (key, val), r, p, val, "Raw::fromUI")
        s = k.base.clone()
        a, p = k.raw(s, X), k.raw(s)
        for r in U.run("arithmetic", "%s mul1 %s" % (key, val), "d_mul1", [k.obj, p, a, val], s):
            U.raw_result("arithmetic", "%s mul1 %s" % (key, val), r, p, X * Rat(P(val)) / Rat(P(m.R)), "Raw::mul1")
    s = k.base.clone()
    a, b = k.raw(s, X), k.raw(s, Y)
    for r in U.run("arithmetic", key + " swap", "d_swap", [k.obj, a, b], s):
        U.raw_result("arithmetic", key + " swap first", r, a, Y, "Raw::swap")
        U.raw_result("arithmetic", key + " swap second", r, b, X, "Raw::swap")
    for x, y, w in ((X, X, 1), (X, Y, None), (Rat(P(0)), Rat(P(0)), 1), (Rat(P(0)), Rat(P(1)), 0)):
        s = k.base.clone()
        a, b = k.raw(s, x), k.raw(s, y)
        ik = "%s eq %s %s" % (key, x, y)
        for r in U.run("arithmetic", ik, "d_eq", [k.obj, a, b], s):
            U.c.check("arithmetic", ik, r.result == (int(bool(r.zero)) if w is None else w), "Raw::eq", "answers %s" % r.result)
    for x, w in ((Rat(P(0)), 1), (Rat(P(1)), 0), (X, None)):
        s = k.base.clone()
        ik = "%s isZero %s" % (key, x)
        for r in U.run("arithmetic", ik, "d_isZero", [k.obj, k.raw(s, x)], s):
            U.c.check("arithmetic", ik, r.result == (int(bool(r.zero)) if w is None else w), "Raw::isZero", "answers %s" % r.result)


def number_text(m, t):
    """(integer form, radix) of a text written by the analysed code"""
    if not re.match(r"^7\d{4,}$", t) or int(t) - 70000 >= len(m.texts):
        return None
    return m.texts[int(t) - 70000][1:]


def convert(U, tier):
    m, k, key = U.m, U.k, U.key
    X = Rat(S("X"))
    for radix in (None, 10, 16, 2):
        for t in ("0", "123", "123456789012345678901234567890123456789012345678901234567890"):
            s = k.base.clone()
            p, st = k.raw(s), k.string(s, t)
            ik = "%s from text %s radix %s" % (key, t, radix)
            for r in U.run("conversion", ik, "d_fromString" + ("" if radix else "10"), [k.obj, p, st] + ([radix] if radix else []), s):
                U.raw_result("conversion", ik, r, p, m.number_of(t, radix or 10), "Raw::fromString")
        for val in (X, Rat(P(0)), Rat(P(1)), Rat(P(-1))):
            s = k.base.clone()
            a = k.raw(s, val)
            sp = Ptr(s.alloc(32, "result", "input"), 0)
            ik = "%s text of %s radix %s" % (key, val, radix)
            for r in U.run("conversion", ik, "d_toString" + ("" if radix else "10"), [k.obj, sp, a] + ([radix] if radix else []), s):
                t = "".join(chr(c) if isinstance(c, int) else "?" for c in m.chars(r, sp))
                nt = number_text(m, t)
                okk = nt is not None and m.canonical(r, nt[0]) and equal(m, r, m.res(nt[0]), val) and nt[1] == (radix or 10)
                U.c.check("conversion", ik, okk, "Raw::toString", "the text is that of %s" % (nt,) if nt else "the text is %s" % t)
                U.unchanged(ik, r, [(a, val)])
    for val in (X, Rat(P(0)), Rat(P(1)), Rat(P(-1))):
        s = k.base.clone()
        a = k.raw(s, val)
        z = Ptr(s.alloc(16, "big integer", "input"), 0)
        m.mput(s, z, 0, True)
        ik = "%s big integer of %s" % (key, val)
        for r in U.run("conversion", ik, "d_toMpz", [k.obj, z, a], s):
            v = m.mget(r, z)
            U.c.check("conversion", ik, m.canonical(r, v) and equal(m, r, m.res(v), val), "Raw::toMpz", "the integer is %s" % (v,))
        s = k.base.clone()
        p = k.raw(s)
        z = Ptr(s.alloc(16, "big integer", "input"), 0)
        m.mput(s, z, m.can(val), True)
        ik = "%s element of the big integer %s" % (key, val)
        for r in U.run("conversion", ik, "d_fromMpz", [k.obj, p, z], s):
            U.raw_result("conversion", ik, r, p, val, "Raw::fromMpz")
            U.c.check("defined", ik + " source", r.mem[z.obj].cells.get(0, (0, 0))[1] == m.can(val), "Raw::fromMpz", "the integer is changed")
    nb = 8 * m.n
    for size in (0, nb - 1, nb, nb + 1, nb + 8, 2 * nb):
        for val in (X, Rat(P(0)), Rat(P(1)), Rat(P(-1))):
            s = k.base.clone()
            a = k.raw(s, val)
            buf = Ptr(s.alloc(size, "bytes", "input"), 0)
            s.mem[buf.obj].kind = "alloca0"
            ik = "%s %s to %d bytes" % (key, val, size)
            for r in U.run("bytes", ik, "d_toRprBE", [k.obj, a, buf, size], s):
                n = r.result if isinstance(r.result, int) else None
                if size < nb:
                    U.c.check("bytes", ik, n == (-nb) & 0xffffffff and not r.mem[buf.obj].cells, "Raw::toRprBE", "a buffer that is too small is not refused")
                    continue
                if n != nb:
                    U.c.bad("bytes", ik, "Raw::toRprBE", "returns %s" % (r.result,))
                    continue
                try:
                    if not judge_bytes(U, ik, r, buf, nb, val):
                        continue
                except Undecided as e:
                    U.c.undecided("bytes", ik, e)
                    continue
                U.unchanged(ik, r, [(a, val)])
                q = r.clone()
                q.ended = None
                p = k.raw(q)
                for f in U.run("bytes", ik + " and back", "d_fromRprBE", [k.obj, p, buf, size], q):
                    if f.result != nb:
                        U.c.bad("bytes", ik + " and back", "Raw::fromRprBE", "returns %s" % (f.result,))
                        continue
                    U.raw_result("bytes", ik + " and back", f, p, val, "Raw::fromRprBE")
        s = k.base.clone()
        buf = Ptr(s.alloc(max(size, 1), "bytes", "input"), 0)
        bs = [S("byte%d" % i, 0, 255) for i in range(size)]
        if size < nb:
            p = k.raw(s, X)
            for i, b in enumerate(bs):
                s.mem[buf.obj].cells[i] = (1, b)
            ik = "%s from %d bytes" % (key, size)
            for r in U.run("bytes", ik, "d_fromRprBE", [k.obj, p, buf, size], s):
                U.c.check("bytes", ik, r.result == (-nb) & 0xffffffff, "Raw::fromRprBE", "a buffer that is too small is not refused")
    s = k.base.clone()
    for r in U.run("bytes", key + " length", "d_bytes", [k.obj], s):
        U.c.check("bytes", key + " length", r.result == nb, "Raw::bytes", "answers %s" % (r.result,))


def judge_bytes(U, ik, r, buf, nb, val):
    """the first nb bytes of the buffer are the big-endian canonical value"""
    m, c = U.m, U.c
    o = r.mem[buf.obj]
    cell = o.cells.get(0)
    if cell and isinstance(cell[1], BE):
        if cell[0] < nb:
            raise Undecided("bytes written in pieces")
        good = m.canonical(r, cell[1].v) and equal(m, r, m.res(cell[1].v), val)
        if cell[0] > nb and good:
            c.bad("bytes", ik, "Raw::toRprBE", "the %d bytes announced start with %d leading zero bytes: the value's last bytes are outside them" % (nb, cell[0] - nb))
            return False
        return c.check("bytes", ik, good, "Raw::toRprBE", "the bytes are those of %s" % (cell[1].v,))
        return
    v = 0
    for i in range(nb):
        b = m.read(r, buf.obj, i, 1)
        if isinstance(b, tuple):
            b = 0
        if b is None:
            if buf.obj in r.mem and r.mem[buf.obj].pristine and m.real(r):
                c.bad("bytes", ik, "Raw::toRprBE", "byte %d is never written" % i)
                return False
            raise Undecided("bytes not tracked")
        if not isinstance(b, (int, Poly)):
            raise Undecided("bytes not tracked")
        v = P(v).scale(256) + P(m.norm(r, b, 8, False))
    if isinstance(v, Poly) and v.is_const():
        v = v.cval()
    if isinstance(v, int) or m.canonical(r, v):
        return c.check("bytes", ik, equal(m, r, m.res(v), val), "Raw::toRprBE", "the bytes are those of %s" % (v,))
    else:
        raise Undecided("bytes not tracked")


def power(U, tier):
    m, k, key = U.m, U.k, U.key
    X = Rat(S("X"))

    def rpow(e):
        v, b = Rat(P(1)), X
        while e:
            if e & 1:
                v = v * b
            b = b * b
            e >>= 1
        return v
    scal = [b""] + [bytes([b]) for b in range(64)] + [bytes([0, 1]), bytes([1, 1]), bytes([5, 0]), bytes([0, 0]), bytes([0, 0, 0]), bytes([7, 0, 0]), bytes([0x21, 0, 0, 0]), bytes([0x81]), bytes([0xff]), bytes([2, 0, 0, 0, 0, 0, 0, 0, 0])]
    for sc in scal:
        for al in (False, True):
            s = k.base.clone()
            s.tags["nz"] = s.tags.get("nz", ()) + (S("X"),)
            a = k.raw(s, X)
            p = a if al else k.raw(s)
            buf = Ptr(s.alloc(len(sc), "scalar", "input"), 0)
            for i, b in enumerate(sc):
                s.mem[buf.obj].cells[i] = (1, b)
            ik = "%s power %s%s" % (key, sc.hex() or "(empty)", " in place" if al else "")
            for r in U.run("power", ik, "d_exp", [k.obj, p, a, buf, len(sc)], s):
                U.raw_result("power", ik, r, p, rpow(int.from_bytes(sc, "little")), "Raw::exp")
                if not al:
                    U.unchanged(ik, r, [(a, X)])


KINDS = ("short", "short with words", "long", "long Montgomery")


def element(U, s, p, kind, nm):
    """write a tagged element; returns its residue"""
    m = U.m
    if kind.startswith("short"):
        v = S(nm + "s", -(1 << 31), (1 << 31) - 1)
        U_ = Rat(v)
        m.put_elem(s, p, MONT if "words" in kind else 0, v, m.can(U_ * Rat(P(m.R))) if "words" in kind else m.opaque("stale", nm))
        return U_, m.can(U_), v
    x = S(nm + "l")
    U_ = Rat(x)
    m.put_elem(s, p, LONG | (MONT if "Mont" in kind else 0), m.opaque("staleshort", nm), m.can(U_ * Rat(P(m.R)) if "Mont" in kind else U_))
    return U_, m.can(U_), None


def tagged(U, tier):
    m, k, key = U.m, U.k, U.key
    size = m.run(m.new_state(), "d_tsize", [])[0].result
    fresh = lambda s, nm: Ptr(s.alloc(size, nm, "input"), 0)

    def result(rule, ik, r, p, want, fn):
        try:
            t, got = m.elem_value(r, p)
        except Undecided as e:
            U.c.undecided(rule, ik, e)
            return
        if t & ~(MONT | LONG):
            U.c.bad(rule, ik, fn, "the type of the result is %x" % t)
        elif not equal(m, r, got, want):
            if r.zero:
                U.c.undecided(rule, ik, "result under a zero assumption")
            else:
                U.c.bad(rule, ik, fn, "the result is %r, expected %r" % (got, want))
        else:
            U.c.ok(rule, ik)
    for t in ("0", "42", "123456789012345678901234567890123456789012345678901234567890123456789012345678901"):
        s = k.base.clone()
        p, st = fresh(s, "result"), k.string(s, t)
        ch = s.mem[st.obj].cells[0][1]
        ik = "%s str2element %s" % (key, t)
        for r in U.run("tagged", ik, "t_str2element", [p, ch], s):
            result("tagged", ik, r, p, m.res(m.number_of(t, 10)), "str2element")
    for kind in KINDS:
        s = k.base.clone()
        a = fresh(s, "operand")
        v, cv, sv = element(U, s, a, kind, "A")
        ik = "%s element2str of a %s element" % (key, kind)
        for r in U.run("tagged", ik, "t_element2str", [a], s, heap_result=True):
            if not isinstance(r.result, Ptr):
                U.c.undecided("tagged", ik, "no text")
                continue
            t = m.cstr(r, r.result) or ""
            nt = number_text(m, t)
            okk = nt is not None and m.canonical(r, nt[0]) and equal(m, r, m.res(nt[0]), v) and nt[1] == 10
            U.c.check("tagged", ik, okk, "element2str", "the text is that of %s" % (nt,) if nt else "the text is %r" % t)
            nm = r.mem[r.result.obj].name
            U.c.check("resources", ik + ", way to release", nm.startswith("malloc"), "element2str", "the text comes from %s on this path and from malloc on others: no single way of releasing it is right" % nm.split("@")[0])
        for op in ("inv",):
            for al in (False, True):
                s = k.base.clone()
                a = fresh(s, "operand")
                v, cv, sv = element(U, s, a, kind, "A")
                s.tags["nz"] = s.tags.get("nz", ()) + (v.n,)
                p = a if al else fresh(s, "result")
                ik = "%s %s of a %s element%s" % (key, op, kind, " in place" if al else "")
                for r in U.run("tagged", ik, "t_" + op, [p, a], s):
                    result("tagged", ik, r, p, Rat(P(1)) / v, op)
        for kb in KINDS:
            for op in ("idiv", "mod", "pow", "div"):
                for al in ((0, 1, 2), (0, 0, 2), (0, 1, 0), (0, 1, 1), (0, 0, 0)):
                    if al[1] == al[2] and kb != kind:
                        continue
                    s = k.base.clone()
                    objs = {g: fresh(s, "operand") for g in set(al)}
                    ps = [objs[g] for g in al]
                    b = element(U, s, ps[2], kb, "B")
                    a = element(U, s, ps[1], kind, "A") if al[1] != al[2] else b
                    nz = (b[0].n,)
                    s.tags["nz"] = s.tags.get("nz", ()) + nz
                    try:
                        want = expect(m, s, op, a, b)
                    except NeedFork:
                        want = None
                    ik = "%s %s of %s and %s elements alias %s" % (key, op, kind, kb, al)
                    for r in U.run("tagged", ik, "t_" + op, ps, s):
                        try:
                            w = expect(m, r, op, a, b)
                        except NeedFork as e:
                            U.c.undecided("tagged", ik, "case not decided")
                            continue
                        result("tagged", ik, r, ps[0], w, op)


def lift(m, s, e):
    """the canonical integer of an element the way the conversions give it: a short value v is v or v + q"""
    v, cv, sv = e
    if sv is None:
        return cv
    return sv if m.ge0(s, P(sv)) else sv + m.q


def expect(m, s, op, a, b):
    if op == "div":
        return a[0] / b[0]
    x, y = lift(m, s, a), lift(m, s, b)
    if op == "pow":
        return m.res(m.bounded(0, m.q - 1, "powm", m.can(m.res(x)), y))
    return m.res(m.bounded(0, m.q - 1, "fdiv_q" if op == "idiv" else "fdiv_r", x, y))


def klass(check, tier):
    check.rule("constant", "zero, one and minus one of the class are these residues", 3)
    check.rule("arithmetic", "every operation of the class, by reference and by value, with elements and machine integers, gives the exact residue, reduced", 60)
    check.rule("conversion", "texts, machine integers and big integers are converted to the residue they denote and back to the canonical integer", 30)
    check.rule("bytes", "the big-endian byte form holds the canonical value, is refused when it does not fit, and converts back", 10)
    check.rule("power", "exponentiation gives the power for every exponent length", 40)
    check.rule("tagged", "conversions, division, remainder, power and inverse of tagged elements give the specified value", 60)
    check.rule("resources", "every big integer and buffer is released exactly once and in the right way", 100)
    check.rule("defined", "nothing is read before it is written, raw routines get reduced values, operands stay unchanged", 100)
    keys = ["bn254r", "goldilocks"] if tier == "quick" else ["bn254r", "bn254q", "goldilocks", "secp256k1", "bls381q", "m127", "p61", "p192"]
    parallel(check, unit, [(k, p) for k in keys for p in ("tagged", "arith", "convert", "power")])
