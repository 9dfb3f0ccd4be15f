"""Abstract interpreter for the C++ field code (LLVM IR, -O0 + mem2reg) over the word domain; GMP's mpn_* layer is modelled word by word."""
from limb import *
from asm import Ptr, Mem, State, Engine
import re


class FnRef:
    def __init__(self, n):
        self.n = n


class Frame:
    def __init__(self, fn, name):
        self.fn, self.name = fn, name
        self.r = {}
        self.b, self.i, self.prev = 0, 0, None
        self.ret = None
        self.locals = []

    def clone(self):
        f = Frame(self.fn, self.name)
        f.r = dict(self.r)
        f.b, f.i, f.prev, f.ret, f.locals = self.b, self.i, self.prev, self.ret, list(self.locals)
        return f


def wid(t):
    return int(t[1:])


class LL(Engine):
    def __init__(self, mod, ctx, mem):
        self.mod, self.ctx, self.mem = mod, ctx, mem
        self.max_steps = 400000
        self.max_paths = 4000
        self.executed = set()
        self.hooks = []
        self.models = []
        self.nobj = 0
        self.gptr = {}
        self.unknown = set()

    # --- setup
    def start(self, name, args):
        s = State()
        self.push(s, name, args)
        return s

    def gl(self, s, name):
        key = "@" + name
        if key not in self.mem.regions:
            g = self.mod["globals"][name]
            self.mem.region(key, g["size"], write=True)
        if key not in s.mem:
            s.mem[key] = {}
            g = self.mod["globals"][name]
            if "init" in g:
                self.init(s, Ptr(key, 0), g["init"], g["size"])
        return Ptr(key, 0)

    def init(self, s, p, v, size):
        k = v[0]
        if k == "zero":
            for o in range(0, v[2], 4):
                self.mem.store(s, Ptr(p.r, p.o + o), self.ctx.c(0), 4)
            return
        if k == "arr":
            for i, e in enumerate(v[2]):
                self.init(s, Ptr(p.r, p.o + i * v[1]), e, v[1])
            return
        if k == "struct":
            for o, e in v[2]:
                self.init(s, Ptr(p.r, p.o + o), e, None)
            return
        if k == "c":
            w = wid(v[1])
            if w >= 8:
                self.mem.store(s, p, self.ctx.c(int(v[2])), w // 8)
            return
        if k in ("undef", "poison"):
            return
        x = self.cval(s, v)
        self.mem.store(s, p, x, 8)

    def push(self, s, name, args, ret=None):
        fn = self.mod["functions"][name]
        if fn["decl"]:
            raise Undecided("call to %s, which has no body here" % fn["dem"])
        if len(s.frames) > 60:
            raise Undecided("call depth")
        f = Frame(fn, name)
        f.ret = ret
        for (i, ty, *_), v in zip(fn["args"], args):
            f.r[i] = v
        s.frames.append(f)

    def cval(self, s, v):
        k = v[0]
        C = self.ctx
        if k == "c":
            return C.c(int(v[2]))
        if k == "null":
            return C.c(0)
        if k == "g":
            return self.gl(s, v[1])
        if k == "f":
            return FnRef(v[1])
        if k == "off":
            b = self.cval(s, v[1])
            return Ptr(b.r, b.o + v[2])
        if k in ("undef", "poison"):
            return C.var("undef", 0, (1 << wid(v[1])) - 1 if v[1][0] == "i" else M64 - 1)
        if k == "zero":
            return C.c(0)
        raise Undecided("constant %s" % k)

    def val(self, s, v):
        if v[0] == "r":
            return s.frames[-1].r[v[1]]
        return self.cval(s, v)

    # --- integer representatives: any value congruent to the machine word, normalised on demand
    def u(self, s, x, w):
        if not isinstance(x, V):
            raise Undecided("address used as a number")
        if x.lo >= 0 and x.hi < 1 << w:
            return x
        if x.lo >= -(1 << w) and x.hi < 1 << w:
            if x.hi < 0 or (x.lo < 0 and self.ctx.decide(s, x, "lt0")):
                y = self.ctx.add(x, self.ctx.c(1 << w))
                return self.ctx.nonneg(y, 0, (1 << w) - 1)
            return self.ctx.nonneg(x, 0, (1 << w) - 1)
        return self.ctx.split(s, x, w)[0]

    def sg(self, s, x, w):
        k = 1 << (w - 1)
        if x.lo >= -k and x.hi < k:
            return x
        x = self.u(s, x, w)
        if x.hi < k:
            return x
        if x.lo >= k or not self.ctx.decide(s, self.ctx.sub(x, self.ctx.c(k)), "lt0"):
            y = self.ctx.sub(x, self.ctx.c(1 << w))
            return V(y.p, max(y.lo, -k), min(y.hi, -1), y.cong)
        return self.ctx.nonneg(x, 0, k - 1)

    def norm(self, s, x, w):
        k = 1 << w
        if x.lo >= -(k >> 1) and x.hi < k:
            return x
        return self.ctx.split(s, x, w)[0]

    def where(self, pc=None):
        return getattr(self, "cur", "?")

    def step(self, s):
        f = s.frames[-1]
        blk = f.fn["blocks"][f.b]
        ins = blk[f.i]
        self.cur = "%s:%s (%s)" % (re.sub(r".*/", "", ins.get("file") or f.fn.get("file", "?")), ins.get("line", "?"), f.fn["dem"].split("(")[0])
        self.executed.add((f.name, ins["id"]))
        op = ins["op"]
        m = getattr(self, "i_" + op, None)
        if m is None:
            raise Undecided("instruction %s" % op)
        r = m(s, f, ins)
        if r is None:
            f.i += 1

    def where_pc(self):
        return self.cur

    def setr(self, f, ins, v):
        f.r[ins["id"]] = v

    def i_alloca(self, s, f, ins):
        self.nobj += 1
        nm = "%s.%d.%d" % (f.fn["dem"].split("(")[0], ins["id"], len(s.frames))
        n = self.cval(s, ins["n"]).const() if ins["n"][0] == "c" else self.val(s, ins["n"]).const()
        if n is None:
            raise Undecided("variable-length array")
        self.mem.region(nm, ins["size"] * n)
        s.mem[nm] = {}
        f.locals.append(nm)
        self.setr(f, ins, Ptr(nm, 0))

    def ptr(self, s, v):
        p = self.val(s, v)
        if isinstance(p, V) and p.const() is not None and 0 <= p.const() < 4096:
            raise Violation("null pointer dereference")
        if not isinstance(p, Ptr):
            raise Undecided("unknown address")
        if p.r in self.mem.regions and p.r not in s.mem and p.r[0] != "@":
            pass
        return p

    def i_load(self, s, f, ins):
        p = self.ptr(s, ins["ptr"])
        n = ins["size"]
        if n not in (1, 2, 4, 8):
            raise Undecided("aggregate load")
        self.setr(f, ins, self.mem.load(s, p, n))

    def i_store(self, s, f, ins):
        p = self.ptr(s, ins["ptr"])
        n = ins["size"]
        v = self.val(s, ins["val"])
        if n not in (1, 2, 4, 8):
            if ins["val"][0] in ("zero",):
                for o in range(0, n, 8):
                    self.mem.store(s, Ptr(p.r, p.o + o), self.ctx.c(0), 8)
                return
            raise Undecided("aggregate store")
        if isinstance(v, V):
            v = self.u(s, v, n * 8)
        self.mem.store(s, p, v, n)

    def i_getelementptr(self, s, f, ins):
        b = self.val(s, ins["base"])
        o = ins.get("off")
        if o is None:
            raise Undecided("gep")
        for v, k, ty in ins.get("var", []):
            x = self.sg(s, self.val(s, v), wid(ty))
            c = x.const()
            if c is None:
                raise Undecided("symbolic index")
            o += c * k
        if not isinstance(b, Ptr):
            raise Undecided("address arithmetic")
        self.setr(f, ins, Ptr(b.r, b.o + o))

    def bin(self, s, ins, fn):
        f = s.frames[-1]
        a, b = self.val(s, ins["ops"][0]), self.val(s, ins["ops"][1])
        w = wid(ins["ty"])
        if not isinstance(a, V) or not isinstance(b, V):
            raise Undecided("address arithmetic")
        self.setr(f, ins, fn(a, b, w))

    def i_add(self, s, f, ins):
        self.bin(s, ins, lambda a, b, w: self.norm(s, self.ctx.add(a, b), w))

    def i_sub(self, s, f, ins):
        self.bin(s, ins, lambda a, b, w: self.norm(s, self.ctx.sub(a, b), w))

    def i_mul(self, s, f, ins):
        self.bin(s, ins, lambda a, b, w: self.norm(s, self.ctx.mul(a, b), w))

    def i_and(self, s, f, ins):
        self.bin(s, ins, lambda a, b, w: self.ctx.band(s, self.u(s, a, w), self.u(s, b, w), w))

    def i_or(self, s, f, ins):
        self.bin(s, ins, lambda a, b, w: self.ctx.bor(s, self.u(s, a, w), self.u(s, b, w), w))

    def i_xor(self, s, f, ins):
        def x(a, b, w):
            if w == 1:
                a, b = self.u(s, a, 1), self.u(s, b, 1)
                if b.const() == 1:
                    return self.ctx.sub(self.ctx.c(1), a)
                if b.const() == 0:
                    return a
            return self.ctx.bxor(s, self.u(s, a, w), self.u(s, b, w), w)
        self.bin(s, ins, x)

    def shamt(self, b, w):
        k = b.const()
        if k is None:
            raise Undecided("symbolic shift count")
        if k < 0 or k >= w:
            raise Violation("shift by %d of a %d-bit value" % (k, w))
        return k

    def i_shl(self, s, f, ins):
        def x(a, b, w):
            k = self.shamt(b, w)
            p = self.ctx.scale(a, 1 << k)
            if p.lo >= -(1 << (w - 1)) and p.hi < 1 << w:
                return p
            return self.ctx.shl(s, self.u(s, a, w), k, w)
        self.bin(s, ins, x)

    def i_lshr(self, s, f, ins):
        self.bin(s, ins, lambda a, b, w: self.ctx.shr(s, self.u(s, a, w), self.shamt(b, w)))

    def i_ashr(self, s, f, ins):
        self.bin(s, ins, lambda a, b, w: self.ctx.split(s, self.sg(s, a, w), self.shamt(b, w))[1] if self.shamt(b, w) else a)

    def div(self, s, ins, signed, rem):
        def x(a, b, w):
            a, b = (self.sg(s, a, w), self.sg(s, b, w)) if signed else (self.u(s, a, w), self.u(s, b, w))
            k, c = b.const(), a.const()
            if k == 0:
                raise Violation("division by zero")
            if k is not None and c is not None:
                q = abs(c) // abs(k) * (1 if (c < 0) == (k < 0) else -1)
                return self.ctx.c(c - q * k if rem else q)
            if k is not None and k > 0 and k & (k - 1) == 0:
                if signed and a.lo < 0 and self.ctx.decide(s, a, "lt0"):
                    raise Undecided("signed division of a negative unknown")
                l, h = self.ctx.split(s, a, k.bit_length() - 1) if k > 1 else (self.ctx.c(0), a)
                return l if rem else h
            raise Undecided("division by an unknown")
        self.bin(s, ins, x)

    def i_udiv(self, s, f, ins):
        self.div(s, ins, False, False)

    def i_urem(self, s, f, ins):
        self.div(s, ins, False, True)

    def i_sdiv(self, s, f, ins):
        self.div(s, ins, True, False)

    def i_srem(self, s, f, ins):
        self.div(s, ins, True, True)

    def i_icmp(self, s, f, ins):
        a, b = self.val(s, ins["ops"][0]), self.val(s, ins["ops"][1])
        pred, t = ins["pred"], ins["oty"][0]
        C = self.ctx
        if not isinstance(a, V) or not isinstance(b, V):
            if pred in ("eq", "ne"):
                if isinstance(a, Ptr) and isinstance(b, Ptr):
                    r = a == b
                elif isinstance(a, Ptr) or isinstance(b, Ptr):
                    x = a if isinstance(a, V) else b
                    if not isinstance(x, V) or x.const() != 0:
                        raise Undecided("address comparison")
                    r = False
                else:
                    raise Undecided("address comparison")
                return self.setr(f, ins, C.c(int(r == (pred == "eq"))))
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r:
                r = {"ult": a.o < b.o, "ugt": a.o > b.o, "ule": a.o <= b.o, "uge": a.o >= b.o}[pred]
                return self.setr(f, ins, C.c(int(r)))
            raise Undecided("address comparison")
        w = wid(t) if t[0] == "i" else 64
        if pred in ("eq", "ne"):
            # compare in a common representation
            if a.lo < 0 or b.lo < 0:
                if a.hi < 1 << (w - 1) and b.hi < 1 << (w - 1):
                    pass
                else:
                    a, b = self.u(s, a, w), self.u(s, b, w)
            r = C.decide(s, C.sub(a, b), "eq0") == (pred == "eq")
        else:
            if pred[0] == "s":
                a, b = self.sg(s, a, w), self.sg(s, b, w)
            else:
                a, b = self.u(s, a, w), self.u(s, b, w)
            p = pred[1:]
            if p in ("lt", "ge"):
                r = C.decide(s, C.sub(a, b), "lt0") == (p == "lt")
            else:
                r = C.decide(s, C.sub(b, a), "lt0") == (p == "gt")
        self.setr(f, ins, C.c(int(r)))

    def truth(self, s, v):
        if not isinstance(v, V):
            raise Undecided("branch on an address")
        return not self.ctx.decide(s, v, "eq0")

    def i_select(self, s, f, ins):
        c, a, b = ins["ops"]
        self.setr(f, ins, self.val(s, a if self.truth(s, self.val(s, c)) else b))

    def goto(self, s, f, b):
        phis = []
        blk = f.fn["blocks"][b]
        i = 0
        while i < len(blk) and blk[i]["op"] == "phi":
            for v, pb in blk[i]["in"]:
                if pb == f.b:
                    phis.append((blk[i]["id"], self.val(s, v)))
                    break
            i += 1
        for k, v in phis:
            f.r[k] = v
        f.prev, f.b, f.i = f.b, b, i
        return True

    def i_br(self, s, f, ins):
        if "cond" in ins:
            return self.goto(s, f, ins["succ"][0 if self.truth(s, self.val(s, ins["cond"])) else 1])
        return self.goto(s, f, ins["succ"][0])

    def i_switch(self, s, f, ins):
        x = self.val(s, ins["cond"])
        w = None
        for v, b in ins["cases"]:
            k = self.cval(s, v)
            w = wid(v[1])
            if self.ctx.decide(s, self.ctx.sub(self.u(s, x, w), k), "eq0"):
                return self.goto(s, f, b)
        return self.goto(s, f, ins["default"])

    def i_unreachable(self, s, f, ins):
        raise Violation("reaches code the compiler assumes unreachable")

    def i_ret(self, s, f, ins):
        v = self.val(s, ins["ops"][0]) if ins.get("ops") else None
        s.frames.pop()
        for nm in f.locals:
            s.mem.pop(nm, None)
        if not s.frames:
            s.retval = v
            s.reg["ret"] = v
            s.pc = "halt"
            return True
        g = s.frames[-1]
        if f.ret is not None and v is not None:
            g.r[f.ret] = v
        g.i += 1
        return True

    def i_trunc(self, s, f, ins):
        x = self.val(s, ins["ops"][0])
        w = wid(ins["ty"])
        self.setr(f, ins, self.norm(s, x, w) if w > 1 else self.ctx.split(s, self.u(s, x, wid(ins["oty"][0])), 1)[0])

    def i_zext(self, s, f, ins):
        self.setr(f, ins, self.u(s, self.val(s, ins["ops"][0]), wid(ins["oty"][0])))

    def i_sext(self, s, f, ins):
        self.setr(f, ins, self.sg(s, self.val(s, ins["ops"][0]), wid(ins["oty"][0])))

    def i_bitcast(self, s, f, ins):
        self.setr(f, ins, self.val(s, ins["ops"][0]))

    def i_freeze(self, s, f, ins):
        self.setr(f, ins, self.val(s, ins["ops"][0]))

    def i_phi(self, s, f, ins):
        raise Undecided("phi")

    # --- calls
    def i_call(self, s, f, ins):
        cv = ins["callee"]
        if cv[0] == "f":
            name = cv[1]
        else:
            r = self.val(s, cv)
            if not isinstance(r, FnRef):
                raise Undecided("indirect call")
            name = r.n
        args = []
        for v, ty in ins["args"]:
            args.append(self.val(s, v) if v[0] not in ("md", "?") else None)
        for k, n in enumerate(ins.get("byval", [])):
            if n:
                nm = "byval.%d.%d.%d" % (ins["id"], k, len(s.frames))
                self.mem.region(nm, n)
                s.mem[nm] = {}
                self.copy(s, Ptr(nm, 0), args[k], n)
                args[k] = Ptr(nm, 0)
        fn = self.mod["functions"].get(name)
        dem = fn["dem"] if fn else name
        base = re.sub(r"\(.*", "", dem).split("::")[-1]
        for h in self.hooks:
            r = h(self, s, base, args, ins)
            if r is not None:
                if r is not True:
                    self.setr(f, ins, r)
                return
        m = getattr(self, "c_" + base, None)
        if m is None and name.startswith("llvm."):
            m = getattr(self, "c_" + name.replace(".", "_").split("_p0")[0].replace("llvm_", "llvm_"), None)
            if m is None and re.match(r"llvm\.(lifetime|dbg|assume|stack)", name):
                return
        if m is not None:
            r = m(s, args, ins)
            if r is not None:
                self.setr(f, ins, r)
            return
        if fn is None or fn["decl"]:
            raise Undecided("call to %s" % dem)
        self.push(s, name, args, ins["id"])
        return True

    i_invoke = None

    def n(self, x):
        k = x.const() if isinstance(x, V) else None
        if k is None:
            raise Undecided("symbolic length")
        if k < 0 or k > 1 << 20:
            raise Violation("length %d" % k)
        return k

    def copy(self, s, d, a, n):
        cells = []
        o = 0
        while o < n:
            z = 8 if n - o >= 8 and (a.o + o) % 8 == 0 and (d.o + o) % 8 == 0 else 4 if n - o >= 4 else 1
            cells.append((o, z, self.mem.load(s, Ptr(a.r, a.o + o), z)))
            o += z
        for o, z, v in cells:
            self.mem.store(s, Ptr(d.r, d.o + o), v, z)

    def c_llvm_memcpy(self, s, a, ins):
        self.copy(s, a[0], a[1], self.n(a[2]))

    def c_memcpy(self, s, a, ins):
        self.copy(s, a[0], a[1], self.n(a[2]))
        return a[0]

    def c_memcmp(self, s, a, ins):
        C, n = self.ctx, self.n(a[2])
        if n % 8:
            raise Undecided("comparison of %d bytes" % n)
        p = padd(self.value(s, a[0], n // 8), self.value(s, a[1], n // 8), -1)
        if C.decide(s, V(p, -(1 << 8 * n), 1 << 8 * n), "eq0"):
            return C.c(0)
        # non-zero; its sign and size are not modelled
        return C.av(C.atom(1, (1 << 32) - 1, "memcmp", ("unknown",)))

    def c_memmove(self, s, a, ins):
        return self.c_memcpy(s, a, ins)

    c_llvm_memmove = c_llvm_memcpy

    def c_memset(self, s, a, ins):
        n, v = self.n(a[2]), a[1].const()
        if v is None:
            raise Undecided("memset value")
        b = v & 255
        for o in range(0, n):
            pass
        o = 0
        while o < n:
            z = 8 if n - o >= 8 and (a[0].o + o) % 8 == 0 else 4 if n - o >= 4 else 1
            self.mem.store(s, Ptr(a[0].r, a[0].o + o), self.ctx.c(int.from_bytes(bytes([b]) * z, "little")), z)
            o += z
        return a[0]

    def c_llvm_memset(self, s, a, ins):
        self.c_memset(s, a, ins)

    # --- GMP mpn layer
    def L(self, s, p, i):
        if not isinstance(p, Ptr):
            raise Undecided("limb address")
        return self.mem.load(s, Ptr(p.r, p.o + 8 * i), 8)

    def S(self, s, p, i, v):
        self.mem.store(s, Ptr(p.r, p.o + 8 * i), v, 8)

    def addsub(self, s, r, a, b, n, sub, cin=None):
        C = self.ctx
        c = cin if cin is not None else C.c(0)
        for i in range(n):
            x = self.L(s, a, i)
            y = self.L(s, b, i) if b is not None else C.c(0)
            p = C.sub(C.sub(x, y), c) if sub else C.add(C.add(x, y), c)
            lo, hi = C.split(s, p, 64)
            c = C.scale(hi, -1) if sub else hi
            self.S(s, r, i, lo)
        return c

    def c___gmpn_add_n(self, s, a, ins):
        return self.addsub(s, a[0], a[1], a[2], self.n(a[3]), False)

    def c___gmpn_sub_n(self, s, a, ins):
        return self.addsub(s, a[0], a[1], a[2], self.n(a[3]), True)

    def c___gmpn_add_1(self, s, a, ins):
        return self.addsub(s, a[0], a[1], None, self.n(a[2]), False, self.u(s, a[3], 64))

    def c___gmpn_sub_1(self, s, a, ins):
        return self.addsub(s, a[0], a[1], None, self.n(a[2]), True, self.u(s, a[3], 64))

    def c___gmpn_add(self, s, a, ins):
        n1, n2 = self.n(a[2]), self.n(a[4])
        c = self.addsub(s, a[0], a[1], a[3], n2, False)
        r, x = Ptr(a[0].r, a[0].o + 8 * n2), Ptr(a[1].r, a[1].o + 8 * n2)
        return self.addsub(s, r, x, None, n1 - n2, False, c)

    def c___gmpn_sub(self, s, a, ins):
        n1, n2 = self.n(a[2]), self.n(a[4])
        c = self.addsub(s, a[0], a[1], a[3], n2, True)
        r, x = Ptr(a[0].r, a[0].o + 8 * n2), Ptr(a[1].r, a[1].o + 8 * n2)
        return self.addsub(s, r, x, None, n1 - n2, True, c)

    def mul1(self, s, r, a, n, b, acc):
        C = self.ctx
        c = C.c(0)
        b = self.u(s, b, 64)
        for i in range(n):
            p = C.add(C.mul(self.L(s, a, i), b), c)
            if acc == 1:
                p = C.add(p, self.L(s, r, i))
            if acc == -1:
                p = C.sub(self.L(s, r, i), p)
            lo, hi = C.split(s, p, 64)
            c = C.scale(hi, -1) if acc == -1 else hi
            self.S(s, r, i, lo)
        return c

    def c___gmpn_mul_1(self, s, a, ins):
        return self.mul1(s, a[0], a[1], self.n(a[2]), a[3], 0)

    def c___gmpn_addmul_1(self, s, a, ins):
        return self.mul1(s, a[0], a[1], self.n(a[2]), a[3], 1)

    def c___gmpn_submul_1(self, s, a, ins):
        return self.mul1(s, a[0], a[1], self.n(a[2]), a[3], -1)

    def value(self, s, p, n):
        t = {}
        for i in range(n):
            t = padd(t, self.L(s, p, i).p, 1 << 64 * i)
        return t

    def c___gmpn_cmp(self, s, a, ins):
        C = self.ctx
        n = self.n(a[2])
        p = padd(self.value(s, a[0], n), self.value(s, a[1], n), -1)
        v = V(p, -(1 << 64 * n), 1 << 64 * n)
        if C.decide(s, v, "lt0"):
            return C.c(-1)
        return C.c(0 if C.decide(s, v, "eq0") else 1)

    def c___gmpn_zero_p(self, s, a, ins):
        C = self.ctx
        n = self.n(a[1])
        v = V(self.value(s, a[0], n), 0, (1 << 64 * n) - 1)
        return C.c(1 if C.decide(s, v, "eq0") else 0)

    def c___gmpn_copyi(self, s, a, ins):
        for i in range(self.n(a[2])):
            self.S(s, a[0], i, self.L(s, a[1], i))

    def c___gmpn_copyd(self, s, a, ins):
        for i in reversed(range(self.n(a[2]))):
            self.S(s, a[0], i, self.L(s, a[1], i))

    def c___gmpn_zero(self, s, a, ins):
        for i in range(self.n(a[1])):
            self.S(s, a[0], i, self.ctx.c(0))

    def bit(self, s, a, fn):
        for i in range(self.n(a[3])):
            self.S(s, a[0], i, fn(s, self.L(s, a[1], i), self.L(s, a[2], i)))

    def c___gmpn_and_n(self, s, a, ins):
        self.bit(s, a, self.ctx.band)

    def c___gmpn_ior_n(self, s, a, ins):
        self.bit(s, a, self.ctx.bor)

    def c___gmpn_xor_n(self, s, a, ins):
        self.bit(s, a, self.ctx.bxor)

    def c___gmpn_com(self, s, a, ins):
        for i in range(self.n(a[2])):
            self.S(s, a[0], i, self.ctx.sub(self.ctx.c(M64 - 1), self.L(s, a[1], i)))

    def c___gmpn_lshift(self, s, a, ins):
        C = self.ctx
        n, k = self.n(a[2]), a[3].const()
        if k is None or not 1 <= k <= 63:
            raise Violation("mpn_lshift count %s" % k)
        ws = [self.L(s, a[1], i) for i in range(n)]
        for i in range(n):
            lo = C.shl(s, ws[i], k)
            self.S(s, a[0], i, C.bor(s, lo, C.shr(s, ws[i - 1], 64 - k)) if i else lo)
        return C.shr(s, ws[-1], 64 - k)

    def c___gmpn_rshift(self, s, a, ins):
        C = self.ctx
        n, k = self.n(a[2]), a[3].const()
        if k is None or not 1 <= k <= 63:
            raise Violation("mpn_rshift count %s" % k)
        ws = [self.L(s, a[1], i) for i in range(n)]
        for i in range(n):
            lo = C.shr(s, ws[i], k)
            self.S(s, a[0], i, C.bor(s, lo, C.shl(s, ws[i + 1], 64 - k)) if i + 1 < n else lo)
        return C.shl(s, ws[0], 64 - k)
