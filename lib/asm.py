"""Abstract interpreters for the generated x86-64 (nasm syntax) and AArch64 (gas syntax) field code over the word domain of limb.py."""
import re
from limb import *


class Ptr:
    __slots__ = ("r", "o")

    def __init__(self, r, o=0):
        self.r, self.o = r, o

    def __eq__(self, x):
        return isinstance(x, Ptr) and x.r == self.r and x.o == self.o

    def __ne__(self, x):
        return not self == x

    def __hash__(self):
        return hash((self.r, self.o))

    def __repr__(self):
        return "%s%+d" % (self.r, self.o)


class Ret:
    __slots__ = ("pc",)

    def __init__(self, pc):
        self.pc = pc


class Und:
    """contents of never-written memory"""


class State(Facts):
    def __init__(self):
        Facts.__init__(self)
        self.reg = {}
        self.fl = {}
        self.mem = {}
        self.pc = 0
        self.steps = 0
        self.events = []
        self.trace = []
        self.frames = []

    def clone(self):
        s = type(self)()
        self.copy_into(s)
        s.reg = dict(self.reg)
        s.fl = dict(self.fl)
        s.mem = {k: dict(v) for k, v in self.mem.items()}
        s.pc, s.steps, s.events, s.trace = self.pc, self.steps, list(self.events), list(self.trace)
        s.frames = [f.clone() for f in self.frames]
        return s


class Region:
    def __init__(self, name, size, write=True, read=True, lo=0):
        self.name, self.size, self.write, self.read, self.lo = name, size, write, read, lo


class Mem:
    """word-granular memory: each 8-byte cell holds one 64-bit value or two 32-bit halves"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.regions = {}

    def region(self, name, size, write=True, read=True, lo=0):
        self.regions[name] = Region(name, size, write, read, lo)
        return Ptr(name, 0)

    def chk(self, st, p, size, write):
        if not isinstance(p, Ptr):
            raise Violation("access through a value that is not an address")
        r = self.regions[p.r]
        if p.o < r.lo or p.o + size > r.size:
            raise Violation("%s of %d bytes at %s%+d, outside the object of %d bytes" % ("write" if write else "read", size, p.r, p.o, r.size))
        if write and not r.write:
            raise Violation("write to the read-only operand %s%+d" % (p.r, p.o))

    def load(self, st, p, size=8):
        self.chk(st, p, size, False)
        cells = st.mem.setdefault(p.r, {})
        o = p.o
        if o % 8 + size > 8:
            raise Undecided("unaligned access")
        c = cells.get(o - o % 8)
        if c is None:
            c = ("q", self.fresh(st, p.r, o - o % 8))
            cells[o - o % 8] = c
        if size == 8:
            if c[0] == "q":
                return c[1]
            return self.ctx.add(c[1], self.ctx.scale(c[2], 1 << 32))
        if c[0] == "q":
            if not isinstance(c[1], V):
                raise Undecided("part of an address")
            l, h = self.ctx.split(st, c[1], 32)
        else:
            l, h = c[1], c[2]
        if size == 4:
            return h if o % 8 else l
        x = h if o % 8 >= 4 else l
        k = o % 4 * 8
        if k:
            x = self.ctx.split(st, x, k)[1]
        return self.ctx.split(st, x, size * 8)[0]

    def fresh(self, st, r, o):
        # uninitialised contents: one unknown per location and path position
        k = ("und", r, o)
        a = self.ctx.memo.get(k)
        if a is None:
            a = self.ctx.atom(0, M64 - 1, "undef_%s%+d" % (r, o))
            self.ctx.memo[k] = a
        return self.ctx.av(a)

    def anyhalf(self):
        # half of an overwritten address: any 32-bit value
        self.nhalf = getattr(self, "nhalf", 0) + 1
        return self.ctx.av(self.ctx.atom(0, (1 << 32) - 1, "half_of_address%d" % self.nhalf))

    def store(self, st, p, v, size=8):
        self.chk(st, p, size, True)
        cells = st.mem.setdefault(p.r, {})
        o = p.o
        if o % 8 + size > 8:
            raise Undecided("unaligned access")
        b = o - o % 8
        if size == 8:
            cells[b] = ("q", v)
            return
        if size != 4:
            w = self.load(st, Ptr(p.r, o - o % 4), 4)
            k = o % 4 * 8
            lo = self.ctx.split(st, w, k)[0] if k else self.ctx.c(0)
            hi = self.ctx.split(st, w, k + size * 8)[1] if k + size * 8 < 32 else self.ctx.c(0)
            v = self.ctx.add(self.ctx.add(lo, self.ctx.scale(v, 1 << k)), self.ctx.scale(hi, 1 << (k + size * 8)))
            o -= o % 4
        c = cells.get(b)
        if c is None:
            c = ("q", self.fresh(st, p.r, b))
        if c[0] == "q":
            l, h = self.ctx.split(st, c[1], 32) if isinstance(c[1], V) else (self.anyhalf(), self.anyhalf())
        else:
            l, h = c[1], c[2]
        cells[b] = ("d", l, v) if o % 8 else ("d", v, h)


R64 = ["rax", "rbx", "rcx", "rdx", "rdi", "rsi", "rsp", "rbp"] + ["r%d" % i for i in range(8, 16)]
SUB = {}
for r in R64:
    SUB[r] = (r, 64, 0)
for a in "abcd":
    SUB["e%sx" % a] = ("r%sx" % a, 32, 0)
    SUB["%sx" % a] = ("r%sx" % a, 16, 0)
    SUB["%sl" % a] = ("r%sx" % a, 8, 0)
    SUB["%sh" % a] = ("r%sx" % a, 8, 8)
for a in ("di", "si", "sp", "bp"):
    SUB["e" + a] = ("r" + a, 32, 0)
    SUB[a] = ("r" + a, 16, 0)
    SUB[a + "l"] = ("r" + a, 8, 0)
for i in range(8, 16):
    SUB["r%dd" % i] = ("r%d" % i, 32, 0)
    SUB["r%dw" % i] = ("r%d" % i, 16, 0)
    SUB["r%db" % i] = ("r%d" % i, 8, 0)


class Program:
    def __init__(self):
        self.ins = []       # (line, op, operands)
        self.labels = {}
        self.globals = []
        self.externs = []
        self.data = []      # (offset, size, int or label)
        self.dlabels = {}
        self.dsize = 0
        self.calls = set()


def num(t):
    t = t.strip().lower()
    neg = t.startswith("-")
    if neg:
        t = t[1:].strip()
    if t.startswith("0x"):
        v = int(t, 16)
    elif re.fullmatch(r"\$[0-9][0-9a-f]*", t):
        v = int(t[1:], 16)
    elif re.fullmatch(r"[0-9a-f]+h", t):
        v = int(t[:-1], 16)
    else:
        v = int(t, 10)
    return -v if neg else v


def isnum(t):
    return re.fullmatch(r"\s*-?\s*(0[xX][0-9a-fA-F]+|\d+|\$\d[0-9a-fA-F]*|\d[0-9a-fA-F]*[hH])\s*", t) is not None


def parse_nasm(text):
    P = Program()
    sec = "text"
    pend = []
    for ln, raw in enumerate(text.split("\n"), 1):
        t = raw.split(";")[0].strip()
        if not t:
            continue
        while True:
            m = re.match(r"^([A-Za-z_.$][\w.$@]*)\s*:\s*(.*)$", t)
            if not m:
                break
            nm, t = m.group(1), m.group(2).strip()
            if sec == "text":
                if nm in P.labels:
                    raise Undecided("label %s defined twice" % nm)
                P.labels[nm] = len(P.ins)
            else:
                P.dlabels[nm] = P.dsize
        if not t:
            continue
        w = t.split(None, 1)
        op, rest = w[0].lower(), (w[1] if len(w) > 1 else "")
        if op == "global":
            P.globals += [x.strip() for x in rest.split(",")]
            continue
        if op == "extern":
            P.externs += [x.strip() for x in rest.split(",")]
            continue
        if op in ("default", "bits", "align"):
            continue
        if op in ("section", "segment"):
            sec = "text" if rest.strip().startswith(".text") else "data"
            continue
        if sec == "data":
            if op not in ("dd", "dq", "db", "dw"):
                w = t.split(None, 2)
                if len(w) < 3 or w[1].lower() not in ("dd", "dq"):
                    raise Undecided("data line %d: %s" % (ln, t))
                P.dlabels[w[0]] = P.dsize
                op, rest = w[1].lower(), w[2]
            size = {"dd": 4, "dq": 8, "db": 1, "dw": 2}[op]
            for x in rest.split(","):
                P.data.append((P.dsize, size, num(x)))
                P.dsize += size
            continue
        if op in ("rep", "repe", "repz"):
            op = op + " " + rest.strip().lower()
            rest = ""
        ops = [x.strip() for x in split_ops(rest)] if rest.strip() else []
        P.ins.append((ln, op, ops))
    return P


def split_ops(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch == "[":
            d += 1
        if ch == "]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    out.append(cur)
    return out


class Engine:
    """explores every path of one routine; subclasses interpret instructions"""

    def __init__(self, prog, ctx, mem):
        self.P, self.ctx, self.mem = prog, ctx, mem
        self.hooks = {}
        self.max_steps = 200000
        self.max_paths = 4000
        self.executed = set()

    def run(self, st):
        done = []
        work = [st]
        while work:
            s = work.pop()
            while True:
                if s.pc == "halt":
                    done.append(s)
                    break
                s.steps += 1
                if s.steps > self.max_steps:
                    raise Undecided("step limit")
                pc0 = s.pc
                snap = None
                try:
                    self.step(s)
                except Fork as f:
                    for alt in f.alts:
                        c = s.clone()
                        c.pc = pc0
                        try:
                            alt(c)
                        except Infeasible:
                            continue
                        c.trace.append(self.where(pc0))
                        work.append(c)
                    if len(work) + len(done) > self.max_paths:
                        raise Undecided("path limit")
                    break
                except Infeasible:
                    break
                except Undecided as e:
                    raise Undecided("%s at %s" % (e, self.where(pc0)))
                except Violation as e:
                    e.st = s
                    e.where = self.where(pc0)
                    raise
        return done

    def where(self, pc):
        return "line %d" % self.P.ins[pc][0] if isinstance(pc, int) and pc < len(self.P.ins) else str(pc)


class X86(Engine):
    def __init__(self, prog, ctx, mem):
        Engine.__init__(self, prog, ctx, mem)
        mem.region("data", prog.dsize, write=False)
        mem.region("stack", 8, lo=-65536)
        self.dcells = {}
        for o, size, v in prog.data:
            b = o - o % 8
            if size == 8:
                if o % 8:
                    raise Undecided("unaligned data")
                self.dcells[b] = ("q", ctx.c(v % M64))
            elif size == 4:
                c = self.dcells.get(b, ("d", ctx.c(0), ctx.c(0)))
                self.dcells[b] = ("d", c[1], ctx.c(v % (1 << 32))) if o % 8 else ("d", ctx.c(v % (1 << 32)), c[2])
        self.entry_hooks = {}
        self.saved = {}
        for r in ("rbx", "rbp", "r12", "r13", "r14", "r15"):
            self.saved[r] = ctx.var("saved_" + r)

    def hook(self, label, fn):
        if label in self.P.labels:
            self.entry_hooks[self.P.labels[label]] = fn

    def start(self, label, args):
        s = State()
        s.mem["data"] = dict(self.dcells)
        for r in R64:
            s.reg[r] = self.ctx.var("init_" + r)
        s.reg.update(self.saved)
        s.reg["rsp"] = Ptr("stack", 0)
        s.mem["stack"] = {0: ("q", Ret("halt"))}
        for r, v in args.items():
            s.reg[r] = v
        s.pc = self.P.labels[label]
        self.entry = s.pc
        return s

    # operands
    def rd(self, s, o):
        """-> (value, width)"""
        o = o.strip()
        l = o.lower()
        if l in SUB:
            r, w, sh = SUB[l]
            v = s.reg[r]
            if w == 64:
                return v, 64
            if not isinstance(v, V):
                raise Undecided("part of an address in %s" % l)
            if sh:
                v = self.ctx.split(s, v, sh)[1]
            return self.ctx.split(s, v, w)[0], w
        m = re.match(r"^(?:(qword|dword|word|byte)\s+)?\[(.*)\]$", l)
        if m:
            size = {"qword": 8, "dword": 4, "word": 2, "byte": 1, None: None}[m.group(1)]
            return ("mem", self.addr(s, re.match(r"^(?:\w+\s+)?\[(.*)\]$", o).group(1)), size), None
        if isnum(l):
            return self.ctx.c(num(l)), None
        if o in self.P.dlabels:
            return Ptr("data", self.P.dlabels[o]), 64
        m = re.match(r"^(?:qword|dword|word|byte)\s+(\w+)$", o, re.I)
        if m and m.group(1).lower() in SUB:
            return self.rd(s, m.group(1))
        raise Undecided("operand %s" % o)

    def addr(self, s, e):
        base, off = None, 0
        for sg, t in re.findall(r"([+-]?)\s*([^+-]+)", e):
            t = t.strip()
            k = -1 if sg == "-" else 1
            mul = 1
            if "*" in t:
                a, b = [x.strip() for x in t.split("*")]
                if isnum(a):
                    a, b = b, a
                t, mul = a, num(b)
            if isnum(t):
                off += k * mul * num(t)
                continue
            if t.lower() in SUB:
                v = s.reg[SUB[t.lower()][0]]
            elif t in self.P.dlabels:
                v = Ptr("data", self.P.dlabels[t])
            else:
                raise Undecided("address term %s" % t)
            if isinstance(v, Ptr):
                if base is not None or mul != 1 or k != 1:
                    raise Undecided("address arithmetic")
                base = v
            elif isinstance(v, V):
                c = v.const()
                if c is None:
                    raise Undecided("symbolic index")
                if c >= 1 << 63:
                    c -= 1 << 64
                off += k * mul * c
            else:
                raise Undecided("address term %s" % t)
        if base is None:
            raise Undecided("absolute address")
        return Ptr(base.r, base.o + off)

    def get(self, s, o, w):
        v, ww = self.rd(s, o)
        if isinstance(v, tuple) and v[0] == "mem":
            return self.mem.load(s, v[1], (v[2] or w // 8))
        if isinstance(v, V) and ww is None and v.lo < 0:
            return self.ctx.c(v.lo % (1 << w))
        if ww is not None and ww != w:
            if ww > w and isinstance(v, V):
                return self.ctx.split(s, v, w)[0]
        return v

    def width(self, ops):
        for o in ops:
            l = o.strip().lower()
            if l in SUB:
                return SUB[l][1]
            m = re.match(r"^(qword|dword|word|byte)\b", l)
            if m:
                return {"qword": 64, "dword": 32, "word": 16, "byte": 8}[m.group(1)]
        return 64

    def put(self, s, o, v, w):
        o = re.sub(r"^(?:qword|dword|word|byte)\s+(?=\w+$)", "", o.strip(), flags=re.I)
        l = o.lower()
        if l in SUB:
            r, w, sh = SUB[l]
            if w >= 32:
                s.reg[r] = v
                return
            x = s.reg[r]
            if not isinstance(x, V):
                raise Undecided("part of an address in %s" % l)
            C = self.ctx
            lo = C.split(s, x, sh)[0] if sh else C.c(0)
            hi = C.split(s, x, sh + w)[1]
            if len(hi.p) > 1:
                # the rest of the register as one unknown, so that the part written stays visible
                k = ("rest", x.key(), sh + w)
                if k not in C.memo:
                    C.memo[k] = C.atom(0, M64 - 1 >> (sh + w), "rest", ("hi", x.p, sh + w))
                hi = C.av(C.memo[k])
            s.reg[r] = C.nonneg(C.add(C.add(lo, C.scale(v, 1 << sh)), C.scale(hi, 1 << (sh + w))), 0, M64 - 1)
            return
        m = re.match(r"^(?:(qword|dword|word|byte)\s+)?\[(.*)\]$", o.strip(), re.I)
        if not m:
            raise Undecided("destination %s" % o)
        self.mem.store(s, self.addr(s, m.group(2)), v, w // 8)

    # flags
    def setres(self, s, v, w, cf=None, of=None, cmp=None):
        s.fl = {"cf": cf, "of": of, "zs": (v, w), "cmp": cmp}

    def cf(self, s):
        c = s.fl.get("cf")
        if c is None:
            raise Undecided("carry flag is undefined here")
        if c[0] == "v":
            return c[1]
        if c[0] == "lt":
            _, h = self.ctx.split(s, c[1], c[2])
            return self.ctx.scale(h, -1)
        if c[0] == "nz":
            return self.ctx.c(0 if self.ctx.decide(s, c[1], "eq0") else 1)
        raise Undecided("carry")

    def cft(self, s):
        c = s.fl.get("cf")
        if c is None:
            raise Undecided("carry flag is undefined here")
        if c[0] == "lt":
            return self.ctx.decide(s, c[1], "lt0")
        if c[0] == "nz":
            return not self.ctx.decide(s, c[1], "eq0")
        return not self.ctx.decide(s, c[1], "eq0")

    def ofv(self, s):
        c = s.fl.get("of")
        if c is None:
            raise Undecided("overflow flag is undefined here")
        if c[0] == "v":
            return c[1]
        raise Undecided("overflow flag value")

    def oft(self, s):
        c = s.fl.get("of")
        if c is None:
            raise Undecided("overflow flag is undefined here")
        if c[0] == "v":
            return not self.ctx.decide(s, c[1], "eq0")
        if c[0] == "lazy":
            a, b, w = self.signed(s, c[1], c[3]), self.signed(s, c[2], c[3]), c[3]
            c = ("range", self.ctx.sub(a, b) if c[4] else self.ctx.add(a, b), -(1 << w - 1), (1 << w - 1) - 1)
        _, p, lo, hi = c
        if self.ctx.decide(s, self.ctx.sub(p, self.ctx.c(lo)), "lt0"):
            return True
        return self.ctx.decide(s, self.ctx.sub(self.ctx.c(hi), p), "lt0")

    def signed(self, s, x, w):
        k = 1 << (w - 1)
        if x.hi < k:
            return x
        if x.lo >= k:
            return self.ctx.sub(x, self.ctx.c(1 << w))
        if self.ctx.decide(s, self.ctx.sub(x, self.ctx.c(k)), "lt0"):
            return self.ctx.nonneg(x, 0, k - 1)
        y = self.ctx.sub(x, self.ctx.c(1 << w))
        return V(y.p, max(y.lo, -k), min(y.hi, -1), y.cong)

    def cond(self, s, cc):
        C = self.ctx
        if cc in ("c", "b", "nae"):
            return self.cft(s)
        if cc in ("nc", "ae", "nb"):
            return not self.cft(s)
        if cc in ("z", "e", "nz", "ne"):
            r = self.zero(s)
            return r if cc in ("z", "e") else not r
        if cc in ("s", "ns"):
            v, w = self.res(s)
            r = C.decide(s, C.sub(C.c((1 << (w - 1)) - 1), v), "lt0")
            return r if cc == "s" else not r
        if cc in ("o", "no"):
            r = self.oft(s)
            return r if cc == "o" else not r
        if cc in ("a", "nbe", "be", "na"):
            r = not self.cft(s) and not self.zero(s)
            return r if cc in ("a", "nbe") else not r
        if cc in ("l", "nge", "ge", "nl", "g", "nle", "le", "ng"):
            d = s.fl.get("cmp")
            if d is None:
                raise Undecided("signed relation after a non-comparison")
            a, b, w = d
            a, b = self.signed(s, a, w), self.signed(s, b, w)
            if cc in ("l", "nge"):
                return C.decide(s, C.sub(a, b), "lt0")
            if cc in ("ge", "nl"):
                return not C.decide(s, C.sub(a, b), "lt0")
            r = C.decide(s, C.sub(b, a), "lt0")
            return r if cc in ("g", "nle") else not r
        raise Undecided("condition %s" % cc)

    def zero(self, s):
        d = s.fl.get("cmp")
        if d is not None and isinstance(d[0], V):
            return self.ctx.decide(s, self.ctx.sub(d[0], d[1]), "eq0")
        v, w = self.res(s)
        return self.ctx.decide(s, v, "eq0")

    def res(self, s):
        z = s.fl.get("zs")
        if z is None:
            raise Undecided("zero/sign flag is undefined here")
        if z[0] == "lazy":
            return self.ctx.split(s, z[1], z[2])[0], z[2]
        return z

    def jump(self, s, t):
        if t in self.P.labels:
            s.pc = self.P.labels[t]
        elif t in self.P.externs:
            s.pc = ("ext", t)
        else:
            raise Undecided("jump to %s" % t)

    def do_ret(self, s):
        sp = s.reg["rsp"]
        if not (isinstance(sp, Ptr) and sp.r == "stack"):
            raise Violation("return with a corrupted stack pointer")
        v = self.mem.load(s, sp, 8)
        if not isinstance(v, Ret):
            raise Violation("return address is not what the caller pushed (unbalanced stack)")
        s.reg["rsp"] = Ptr("stack", sp.o + 8)
        s.pc = v.pc

    def step(self, s):
        C = self.ctx
        if isinstance(s.pc, tuple):
            s.events.append(("call", s.pc[1]))
            for r in ("rax", "rcx", "rdx", "rsi", "rdi", "r8", "r9", "r10", "r11"):
                s.reg[r] = C.var("clob_" + r)
            s.fl = {}
            return self.do_ret(s)
        h = self.entry_hooks.get(s.pc)
        if h is not None and not (s.pc == self.entry and s.steps <= 1):
            if h(self, s):
                s.fl = {}
                return self.do_ret(s)
        if s.pc >= len(self.P.ins):
            raise Violation("execution runs off the end of the code")
        ln, op, o = self.P.ins[s.pc]
        self.executed.add(s.pc)
        f = getattr(self, "i_" + op.replace(" ", "_"), None)
        if f is not None:
            nxt = s.pc + 1
            r = f(s, o)
            if r is not True:
                s.pc = nxt
            return
        if op[0] == "j":
            if self.cond(s, op[1:]):
                self.jump(s, o[0])
            else:
                s.pc += 1
            return
        if op.startswith("set"):
            self.put(s, o[0], C.c(1 if self.cond(s, op[3:]) else 0), 8)
            s.pc += 1
            return
        if op.startswith("cmov"):
            w = self.width(o)
            v = self.get(s, o[1], w) if self.cond(s, op[4:]) else self.get(s, o[0], w)
            self.put(s, o[0], v, w)
            s.pc += 1
            return
        raise Undecided("instruction %s" % op)

    def num2(self, s, o):
        w = self.width(o)
        a, b = self.get(s, o[0], w), self.get(s, o[1], w)
        return a, b, w

    def i_mov(self, s, o):
        w = self.width(o)
        self.put(s, o[0], self.get(s, o[1], w), w)

    def i_movabs(self, s, o):
        self.i_mov(s, o)

    def i_lea(self, s, o):
        m = re.match(r"^\[(.*)\]$", o[1].strip())
        e = m.group(1)
        try:
            p = self.addr(s, e)
        except Undecided:
            p = None
        if p is None:
            t = self.ctx.c(0)
            for sg, x in re.findall(r"([+-]?)\s*([^+-]+)", e):
                x = x.strip()
                mul = 1
                if "*" in x:
                    x, m2 = [y.strip() for y in x.split("*")]
                    mul = num(m2)
                v = self.ctx.c(num(x)) if isnum(x) else s.reg[SUB[x.lower()][0]]
                if not isinstance(v, V):
                    raise Undecided("lea")
                t = self.ctx.add(t, self.ctx.scale(v, -mul if sg == "-" else mul))
            p = self.ctx.split(s, t, 64)[0]
        self.put(s, o[0], p, 64)

    def arith(self, s, o, sub, cin, wr=True):
        C = self.ctx
        a, b, w = self.num2(s, o)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, V) and b.const() is not None and cin is None:
                k = b.const()
                if k >= 1 << 63:
                    k -= 1 << 64
                if wr:
                    self.put(s, o[0], Ptr(a.r, a.o - k if sub else a.o + k), 64)
                s.fl = {}
                return
            if isinstance(b, Ptr) and isinstance(a, V) and a.const() is not None and not sub and cin is None:
                self.put(s, o[0], Ptr(b.r, b.o + a.const()), 64)
                s.fl = {}
                return
            raise Undecided("address arithmetic")
        p = C.sub(a, b) if sub else C.add(a, b)
        if cin is not None:
            p = C.sub(p, cin) if sub else C.add(p, cin)
        if not wr:
            # comparison: keep the difference, do not name anything
            s.fl = {"cf": ("lt", p, w), "of": None, "zs": None, "cmp": (a, b, w)}
            s.fl["zs"] = ("lazy", p, w)
            s.fl["of"] = ("lazy", a, b, w, sub)
            return
        lo, hi = C.split(s, p, w)
        cf = ("lt", p, w) if sub else ("v", hi)
        of = None
        if cin is None:
            of = ("lazy", a, b, w, sub)
        self.put(s, o[0], lo, w)
        self.setres(s, lo, w, cf, of, (a, b, w) if sub and cin is None else None)

    def i_add(self, s, o):
        self.arith(s, o, False, None)

    def i_sub(self, s, o):
        if o[0].strip().lower() == o[1].strip().lower():
            self.put(s, o[0], self.ctx.c(0), self.width(o))
            return self.setres(s, self.ctx.c(0), 64, ("v", self.ctx.c(0)), ("v", self.ctx.c(0)))
        self.arith(s, o, True, None)

    def i_cmp(self, s, o):
        self.arith(s, o, True, None, wr=False)

    def i_adc(self, s, o):
        self.arith(s, o, False, self.cf(s))

    def i_sbb(self, s, o):
        self.arith(s, o, True, self.cf(s))

    def i_inc(self, s, o):
        cf = s.fl.get("cf")
        self.arith(s, [o[0], "1"], False, None)
        s.fl["cf"] = cf

    def i_dec(self, s, o):
        cf = s.fl.get("cf")
        self.arith(s, [o[0], "1"], True, None)
        s.fl["cf"] = cf
        s.fl["cmp"] = None

    def i_adcx(self, s, o):
        C = self.ctx
        a, b, w = self.num2(s, o)
        lo, hi = C.split(s, C.add(C.add(a, b), self.cf(s)), w)
        self.put(s, o[0], lo, w)
        s.fl["cf"] = ("v", hi)

    def i_adox(self, s, o):
        C = self.ctx
        a, b, w = self.num2(s, o)
        lo, hi = C.split(s, C.add(C.add(a, b), self.ofv(s)), w)
        self.put(s, o[0], lo, w)
        s.fl["of"] = ("v", hi)

    def i_mulx(self, s, o):
        C = self.ctx
        w = self.width(o[:2])
        a = self.get(s, "rdx" if w == 64 else "edx", w)
        b = self.get(s, o[2], w)
        lo, hi = C.split(s, C.mul(a, b), w)
        self.put(s, o[1], lo, w)
        self.put(s, o[0], hi, w)

    def i_mul(self, s, o):
        C = self.ctx
        w = self.width(o)
        a = self.get(s, "rax" if w == 64 else "eax", w)
        b = self.get(s, o[0], w)
        lo, hi = C.split(s, C.mul(a, b), w)
        self.put(s, "rax" if w == 64 else "eax", lo, w)
        self.put(s, "rdx" if w == 64 else "edx", hi, w)
        s.fl = {"cf": ("nz", hi), "of": None, "zs": None, "cmp": None}

    def i_imul(self, s, o):
        C = self.ctx
        w = self.width(o)
        k = 1 << (w - 1)
        if len(o) == 1:
            a = self.signed(s, self.get(s, "rax" if w == 64 else "eax", w), w)
            b = self.signed(s, self.get(s, o[0], w), w)
        else:
            a = self.signed(s, self.get(s, o[-2], w), w)
            b = self.signed(s, self.get(s, o[-1], w), w)
        p = C.mul(a, b)
        lo, hi = C.split(s, p, w)
        of = ("range", p, -k, k - 1)
        if len(o) == 1:
            self.put(s, "rax" if w == 64 else "eax", lo, w)
            self.put(s, "rdx" if w == 64 else "edx", C.split(s, hi, w)[0], w)
        else:
            self.put(s, o[0], lo, w)
        s.fl = {"cf": None, "of": of, "zs": None, "cmp": None}

    def logic(self, s, o, fn, wr=True):
        C = self.ctx
        a, b, w = self.num2(s, o)
        if not isinstance(a, V) or not isinstance(b, V):
            raise Undecided("bit operation on an address")
        r = fn(s, a, b, w)
        if wr:
            self.put(s, o[0], r, w)
        self.setres(s, r, w, ("v", C.c(0)), ("v", C.c(0)), (r, C.c(0), w))

    def i_and(self, s, o):
        self.logic(s, o, self.ctx.band)

    def i_or(self, s, o):
        self.logic(s, o, self.ctx.bor)

    def i_test(self, s, o):
        self.logic(s, o, self.ctx.band, wr=False)

    def i_xor(self, s, o):
        if o[0].strip().lower() == o[1].strip().lower():
            self.put(s, o[0], self.ctx.c(0), self.width(o))
            z = self.ctx.c(0)
            return self.setres(s, z, 64, ("v", z), ("v", z), (z, z, 64))
        self.logic(s, o, self.ctx.bxor)

    def i_not(self, s, o):
        w = self.width(o)
        self.put(s, o[0], self.ctx.sub(self.ctx.c((1 << w) - 1), self.get(s, o[0], w)), w)

    def i_neg(self, s, o):
        C = self.ctx
        w = self.width(o)
        a = self.get(s, o[0], w)
        lo, hi = C.split(s, C.scale(a, -1), w)
        self.put(s, o[0], lo, w)
        self.setres(s, lo, w, ("nz", a), ("lazy", C.c(0), a, w, True), (C.c(0), a, w))

    def count(self, s, o, w):
        k = self.get(s, o, 8)
        c = k.const() if isinstance(k, V) else None
        if c is None:
            raise Undecided("symbolic shift count")
        return c & (63 if w == 64 else 31)

    def shift(self, s, o, kind):
        C = self.ctx
        w = self.width(o[:1])
        k = self.count(s, o[1], w) if len(o) > 1 else 1
        a = self.get(s, o[0], w)
        if not isinstance(a, V):
            raise Undecided("shift of an address")
        if k == 0:
            if w == 32:
                self.put(s, o[0], a, w)
            return
        if kind == "shl":
            r = C.shl(s, a, k, w)
        elif kind == "shr":
            r = C.shr(s, a, k)
        else:
            x = self.signed(s, a, w)
            y = C.split(s, x, k)[1]
            r = C.split(s, y, w)[0]
        self.put(s, o[0], r, w)
        self.setres(s, r, w, None, None, None)

    def i_shl(self, s, o):
        self.shift(s, o, "shl")

    def i_sal(self, s, o):
        self.shift(s, o, "shl")

    def i_shr(self, s, o):
        self.shift(s, o, "shr")

    def i_sar(self, s, o):
        self.shift(s, o, "sar")

    def i_rol(self, s, o):
        w = self.width(o[:1])
        k = self.get(s, o[1], 8).const()
        a = self.get(s, o[0], w)
        if k is None or a.const() is None:
            raise Undecided("rotate of an unknown value")
        k %= w
        v = a.const()
        self.put(s, o[0], self.ctx.c(((v << k) | (v >> (w - k))) & ((1 << w) - 1)), w)
        f = dict(s.fl)
        f["cf"] = f["of"] = None
        s.fl = f

    def i_ror(self, s, o):
        w = self.width(o[:1])
        self.i_rol(s, [o[0], str((w - self.get(s, o[1], 8).const()) % w)])

    def i_bt(self, s, o):
        C = self.ctx
        w = self.width(o[:1])
        k = self.get(s, o[1], 64).const()
        a = self.get(s, o[0], w)
        if k is None:
            raise Undecided("bit index")
        h = C.split(s, a, k % w)[1] if k % w else a
        b = C.split(s, h, 1)[0]
        f = dict(s.fl)
        f["cf"], f["of"] = ("v", b), None
        s.fl = f

    def i_movsx(self, s, o):
        w, sw = self.width(o[:1]), self.width(o[1:])
        a = self.signed(s, self.get(s, o[1], sw), sw)
        self.put(s, o[0], self.ctx.split(s, a, w)[0], w)

    i_movsxd = i_movsx

    def i_movzx(self, s, o):
        w, sw = self.width(o[:1]), self.width(o[1:])
        self.put(s, o[0], self.get(s, o[1], sw), w)

    def i_xchg(self, s, o):
        w = self.width(o)
        a, b = self.get(s, o[0], w), self.get(s, o[1], w)
        self.put(s, o[0], b, w)
        self.put(s, o[1], a, w)

    def i_nop(self, s, o):
        pass

    def i_push(self, s, o):
        sp = s.reg["rsp"]
        v = self.get(s, o[0], 64)
        s.reg["rsp"] = Ptr("stack", sp.o - 8)
        self.mem.store(s, s.reg["rsp"], v, 8)

    def i_pop(self, s, o):
        sp = s.reg["rsp"]
        v = self.mem.load(s, sp, 8)
        s.reg["rsp"] = Ptr("stack", sp.o + 8)
        self.put(s, o[0], v, 64)

    def i_call(self, s, o):
        t = o[0].split()[-1]
        sp = s.reg["rsp"]
        s.reg["rsp"] = Ptr("stack", sp.o - 8)
        self.mem.store(s, s.reg["rsp"], Ret(s.pc + 1), 8)
        self.jump(s, t)
        return True

    def i_jmp(self, s, o):
        self.jump(s, o[0].split()[-1])
        return True

    def i_ret(self, s, o):
        self.do_ret(s)
        return True

    def i_cld(self, s, o):
        pass

    def i_rep_movsq(self, s, o):
        n = s.reg["rcx"].const() if isinstance(s.reg["rcx"], V) else None
        if n is None:
            raise Undecided("symbolic copy length")
        a, d = s.reg["rsi"], s.reg["rdi"]
        for i in range(n):
            self.mem.store(s, Ptr(d.r, d.o + 8 * i), self.mem.load(s, Ptr(a.r, a.o + 8 * i), 8), 8)
        s.reg["rsi"], s.reg["rdi"], s.reg["rcx"] = Ptr(a.r, a.o + 8 * n), Ptr(d.r, d.o + 8 * n), self.ctx.c(0)

    def abi(self, s):
        """what the calling convention requires at the outer return"""
        bad = []
        for r, v in self.saved.items():
            x = s.reg[r]
            if not (isinstance(x, V) and x.key() == v.key()):
                bad.append("callee-saved register %s is not restored" % r)
        sp = s.reg["rsp"]
        if not (isinstance(sp, Ptr) and sp.r == "stack" and sp.o == 8):
            bad.append("stack pointer is not restored")
        return bad


# ------------------------------------------------------------------ AArch64
def parse_gas(text):
    P = Program()
    pend = []
    for ln, raw in enumerate(text.split("\n"), 1):
        t = raw.split("//")[0].strip()
        if not t:
            continue
        while True:
            m = re.match(r"^([A-Za-z_.$][\w.$]*)\s*:\s*(.*)$", t)
            if not m:
                break
            pend.append(m.group(1))
            t = m.group(2).strip()
        if not t:
            continue
        w = t.split(None, 1)
        op, rest = w[0].lower(), (w[1] if len(w) > 1 else "")
        if op == ".global" or op == ".globl":
            P.globals += [x.strip() for x in rest.split(",")]
            continue
        if op in (".quad", ".xword", ".dword"):
            for nm in pend:
                P.dlabels[nm] = P.dsize
            pend = []
            for x in rest.split(","):
                x = x.strip()
                P.data.append((P.dsize, 8, num(x) if isnum(x) else x))
                P.dsize += 8
            continue
        if op.startswith("."):
            continue
        for nm in pend:
            if nm in P.labels:
                raise Undecided("label %s defined twice" % nm)
            P.labels[nm] = len(P.ins)
        pend = []
        P.ins.append((ln, op, [x.strip() for x in split_ops(rest)] if rest.strip() else []))
    return P


class Arm(Engine):
    CALLEE = ["x%d" % i for i in range(19, 30)]

    def __init__(self, prog, ctx, mem):
        Engine.__init__(self, prog, ctx, mem)
        mem.region("data", max(8, prog.dsize), write=False)
        mem.region("stack", 0, lo=-65536)
        self.dcells = {}
        for o, size, v in prog.data:
            self.dcells[o] = ("q", ctx.c(v % M64) if isinstance(v, int) else Lab(v))
        self.saved = {r: ctx.var("saved_" + r) for r in self.CALLEE}
        self.saved["x18"] = ctx.var("platform_x18")

    def start(self, label, args):
        s = State()
        s.mem["data"] = dict(self.dcells)
        for i in range(31):
            s.reg["x%d" % i] = self.ctx.var("init_x%d" % i)
        s.reg.update(self.saved)
        s.reg["sp"] = Ptr("stack", 0)
        s.reg["x30"] = Ret("halt")
        s.reg.update(args)
        s.pc = self.P.labels[label]
        return s

    def r(self, s, o):
        o = o.lower()
        if o == "xzr":
            return self.ctx.c(0)
        if o == "lr":
            o = "x30"
        if o in s.reg:
            return s.reg[o]
        t = o[1:] if o.startswith("#") else o
        if isnum(t):
            return self.ctx.c(num(t) % M64)
        raise Undecided("operand %s" % o)

    def w(self, s, o, v):
        o = o.lower()
        if o == "xzr":
            return
        if o == "lr":
            o = "x30"
        if o not in s.reg:
            raise Undecided("destination %s" % o)
        s.reg[o] = v

    def op2(self, s, o):
        """second source with optional shift"""
        v = self.r(s, o[0])
        if len(o) > 1:
            m = re.match(r"^(lsl|lsr)\s+#?(\w+)$", o[1].lower())
            if not m:
                raise Undecided("operand shift %s" % o[1])
            k = num(m.group(2))
            v = self.ctx.shl(s, v, k) if m.group(1) == "lsl" else self.ctx.shr(s, v, k)
        return v

    def memop(self, s, o):
        """address of [..] with optional writeback; returns pointer"""
        t = o[0]
        m = re.match(r"^\[(.*)\](!?)$", t)
        if not m:
            raise Undecided("address %s" % t)
        parts = [x.strip() for x in m.group(1).split(",")]
        base = self.r(s, parts[0])
        if not isinstance(base, Ptr):
            raise Violation("access through a value that is not an address")
        off = 0
        if len(parts) > 1:
            x = self.r(s, parts[1])
            k = x.const() if isinstance(x, V) else None
            if k is None:
                raise Undecided("symbolic index")
            if len(parts) > 2:
                mm = re.match(r"^lsl\s+#?(\d+)$", parts[2].lower())
                if not mm:
                    raise Undecided("index shift")
                k <<= int(mm.group(1))
            off = k - M64 if k >= 1 << 63 else k
        p = Ptr(base.r, base.o + off)
        if m.group(2):
            self.w(s, parts[0], p)
        elif len(o) > 1:
            k = self.r(s, o[1]).const()
            if k >= 1 << 63:
                k -= M64
            self.w(s, parts[0], Ptr(p.r, p.o + k))
        return p

    def cond(self, s, cc):
        C, f = self.ctx, s.fl

        def need(k):
            if f.get(k) is None:
                raise Undecided("flag %s is undefined here" % k)
            return f[k]

        def c():
            x = need("c")
            if x[0] == "ge":
                return not C.decide(s, x[1], "lt0")
            return not C.decide(s, x[1], "eq0")

        def z():
            return C.decide(s, need("z"), "eq0")
        if cc in ("cs", "hs"):
            return c()
        if cc in ("cc", "lo"):
            return not c()
        if cc == "eq":
            return z()
        if cc == "ne":
            return not z()
        if cc == "hi":
            return c() and not z()
        if cc == "ls":
            return not (c() and not z())
        if cc in ("lt", "ge", "gt", "le"):
            a, b = [X86.signed(self, s, v, 64) for v in need("cmp")]
            if cc in ("lt", "ge"):
                r = C.decide(s, C.sub(a, b), "lt0")
                return r if cc == "lt" else not r
            r = C.decide(s, C.sub(b, a), "lt0")
            return r if cc == "gt" else not r
        if cc in ("mi", "pl"):
            r = C.decide(s, C.sub(C.c((1 << 63) - 1), need("z")), "lt0")
            return r if cc == "mi" else not r
        raise Undecided("condition %s" % cc)

    def carry(self, s):
        x = s.fl.get("c")
        if x is None:
            raise Undecided("carry flag is undefined here")
        if x[0] == "ge":
            _, h = self.ctx.split(s, x[1], 64)
            return self.ctx.add(self.ctx.c(1), h)
        return x[1]

    def jump(self, s, t):
        if t not in self.P.labels:
            raise Undecided("branch to %s" % t)
        s.pc = self.P.labels[t]

    def step(self, s):
        if s.pc >= len(self.P.ins):
            raise Violation("execution runs off the end of the code")
        ln, op, o = self.P.ins[s.pc]
        self.executed.add(s.pc)
        C = self.ctx
        if op.startswith("b."):
            if self.cond(s, op[2:]):
                self.jump(s, o[0])
            else:
                s.pc += 1
            return
        f = getattr(self, "i_" + op, None)
        if f is None:
            raise Undecided("instruction %s" % op)
        nxt = s.pc + 1
        if f(s, o) is not True:
            s.pc = nxt

    def arith(self, s, o, sub, cin, flags, dest=True):
        C = self.ctx
        a, b = self.r(s, o[-2] if len(o) == 3 or not dest else o[1]), None
        if dest:
            a, b = self.r(s, o[1]), self.op2(s, o[2:])
        else:
            a, b = self.r(s, o[0]), self.op2(s, o[1:])
        if isinstance(a, Ptr) and isinstance(b, V) and b.const() is not None and cin is None and not flags:
            k = b.const()
            k = k - M64 if k >= 1 << 63 else k
            return self.w(s, o[0], Ptr(a.r, a.o - k if sub else a.o + k))
        if not isinstance(a, V) or not isinstance(b, V):
            raise Undecided("address arithmetic")
        p = C.sub(a, b) if sub else C.add(a, b)
        if cin is not None:
            p = C.sub(C.add(p, cin), C.c(1)) if sub else C.add(p, cin)
        if dest and o[0].lower() != "xzr":
            lo, hi = C.split(s, p, 64)
            self.w(s, o[0], lo)
        else:
            lo = hi = None
        if flags:
            if sub:
                # Z of a comparison is the exact difference
                z = p if cin is None else (lo if lo is not None else C.split(s, p, 64)[0])
                s.fl = {"c": ("ge", p), "z": z, "cmp": (a, b) if cin is None else None}
            else:
                if hi is None:
                    lo, hi = C.split(s, p, 64)
                s.fl = {"c": ("v", hi), "z": lo, "cmp": None}

    def i_add(self, s, o):
        self.arith(s, o, False, None, False)

    def i_adds(self, s, o):
        self.arith(s, o, False, None, True)

    def i_adc(self, s, o):
        self.arith(s, o, False, self.carry(s), False)

    def i_adcs(self, s, o):
        self.arith(s, o, False, self.carry(s), True)

    def i_sub(self, s, o):
        self.arith(s, o, True, None, False)

    def i_subs(self, s, o):
        self.arith(s, o, True, None, True)

    def i_sbc(self, s, o):
        self.arith(s, o, True, self.carry(s), False)

    def i_sbcs(self, s, o):
        self.arith(s, o, True, self.carry(s), True)

    def i_cmp(self, s, o):
        self.arith(s, o, True, None, True, dest=False)

    def i_cmn(self, s, o):
        self.arith(s, o, False, None, True, dest=False)

    def i_neg(self, s, o):
        self.arith(s, [o[0], "xzr"] + o[1:], True, None, False)

    def i_mul(self, s, o):
        C = self.ctx
        self.w(s, o[0], C.split(s, C.mul(self.r(s, o[1]), self.r(s, o[2])), 64)[0])

    def i_umulh(self, s, o):
        C = self.ctx
        self.w(s, o[0], C.split(s, C.mul(self.r(s, o[1]), self.r(s, o[2])), 64)[1])

    def i_madd(self, s, o):
        C = self.ctx
        self.w(s, o[0], C.split(s, C.add(C.mul(self.r(s, o[1]), self.r(s, o[2])), self.r(s, o[3])), 64)[0])

    def bits(self, s, o, fn, inv=False):
        C = self.ctx
        a, b = self.r(s, o[1]), self.op2(s, o[2:])
        if not isinstance(a, V) or not isinstance(b, V):
            raise Undecided("bit operation on an address")
        if inv:
            b = C.sub(C.c(M64 - 1), b)
        r = fn(s, a, b)
        self.w(s, o[0], r)
        return r

    def i_and(self, s, o):
        self.bits(s, o, self.ctx.band)

    def i_ands(self, s, o):
        r = self.bits(s, o, self.ctx.band)
        s.fl = {"c": ("v", self.ctx.c(0)), "z": r, "cmp": (r, self.ctx.c(0))}

    def i_tst(self, s, o):
        self.i_ands(s, ["xzr"] + o)

    def i_bic(self, s, o):
        self.bits(s, o, self.ctx.band, True)

    def i_orr(self, s, o):
        self.bits(s, o, self.ctx.bor)

    def i_eor(self, s, o):
        self.bits(s, o, self.ctx.bxor)

    def i_mvn(self, s, o):
        self.w(s, o[0], self.ctx.sub(self.ctx.c(M64 - 1), self.op2(s, o[1:])))

    def i_mov(self, s, o):
        self.w(s, o[0], self.r(s, o[1]))

    def i_movz(self, s, o):
        self.w(s, o[0], self.op2(s, o[1:]))

    def sh(self, s, o, fn):
        k = self.r(s, o[2]).const()
        if k is None:
            raise Undecided("symbolic shift count")
        self.w(s, o[0], fn(s, self.r(s, o[1]), k % 64))

    def i_lsl(self, s, o):
        self.sh(s, o, lambda st, x, k: self.ctx.shl(st, x, k))

    def i_lsr(self, s, o):
        self.sh(s, o, lambda st, x, k: self.ctx.shr(st, x, k))

    def i_adr(self, s, o):
        if o[1] in self.P.dlabels:
            self.w(s, o[0], Ptr("data", self.P.dlabels[o[1]]))
        else:
            raise Undecided("adr %s" % o[1])

    def i_ldp(self, s, o):
        p = self.memop(s, o[2:])
        a, b = self.mem.load(s, p, 8), self.mem.load(s, Ptr(p.r, p.o + 8), 8)
        self.w(s, o[0], a)
        self.w(s, o[1], b)

    def i_stp(self, s, o):
        a, b = self.r(s, o[0]), self.r(s, o[1])
        p = self.memop(s, o[2:])
        self.mem.store(s, p, a, 8)
        self.mem.store(s, Ptr(p.r, p.o + 8), b, 8)

    def i_ldr(self, s, o):
        self.w(s, o[0], self.mem.load(s, self.memop(s, o[1:]), 8))

    def i_str(self, s, o):
        a = self.r(s, o[0])
        self.mem.store(s, self.memop(s, o[1:]), a, 8)

    def i_csel(self, s, o):
        self.w(s, o[0], self.r(s, o[1] if self.cond(s, o[3].lower()) else o[2]))

    def i_cset(self, s, o):
        self.w(s, o[0], self.ctx.c(1 if self.cond(s, o[1].lower()) else 0))

    def i_csetm(self, s, o):
        self.w(s, o[0], self.ctx.c(M64 - 1 if self.cond(s, o[1].lower()) else 0))

    def i_cinc(self, s, o):
        C = self.ctx
        v = self.r(s, o[1])
        if self.cond(s, o[2].lower()):
            v = C.split(s, C.add(v, C.c(1)), 64)[0]
        self.w(s, o[0], v)

    def i_csinc(self, s, o):
        C = self.ctx
        v = self.r(s, o[1]) if self.cond(s, o[3].lower()) else C.split(s, C.add(self.r(s, o[2]), C.c(1)), 64)[0]
        self.w(s, o[0], v)

    def i_cneg(self, s, o):
        C = self.ctx
        v = self.r(s, o[1])
        if self.cond(s, o[2].lower()):
            v = C.split(s, C.scale(v, -1), 64)[0]
        self.w(s, o[0], v)

    def i_cbz(self, s, o):
        if self.ctx.decide(s, self.r(s, o[0]), "eq0"):
            self.jump(s, o[1])
            return True

    def i_cbnz(self, s, o):
        if not self.ctx.decide(s, self.r(s, o[0]), "eq0"):
            self.jump(s, o[1])
            return True

    def i_tbz(self, s, o, inv=False):
        C = self.ctx
        k = num(o[1].lstrip("#"))
        x = self.r(s, o[0])
        b = C.split(s, C.split(s, x, k)[1] if k else x, 1)[0]
        if C.decide(s, b, "eq0") != inv:
            self.jump(s, o[2])
            return True

    def i_tbnz(self, s, o):
        return self.i_tbz(s, o, True)

    def i_b(self, s, o):
        self.jump(s, o[0])
        return True

    def i_bl(self, s, o):
        s.reg["x30"] = Ret(s.pc + 1)
        self.jump(s, o[0])
        return True

    def i_br(self, s, o):
        v = self.r(s, o[0])
        if isinstance(v, Lab):
            self.jump(s, v.n)
            return True
        raise Undecided("indirect branch")

    def i_ret(self, s, o):
        v = s.reg["x30"]
        if not isinstance(v, Ret):
            raise Violation("return address register was overwritten")
        s.pc = v.pc
        return True

    def i_nop(self, s, o):
        pass

    def abi(self, s):
        bad = []
        for r, v in self.saved.items():
            x = s.reg[r]
            if not (isinstance(x, V) and x.key() == v.key()):
                bad.append("%s register %s is not restored" % ("platform" if r == "x18" else "callee-saved", r))
        if s.reg["sp"] != Ptr("stack", 0):
            bad.append("stack pointer is not restored")
        return bad


class Lab:
    def __init__(self, n):
        self.n = n
