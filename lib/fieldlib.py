"""Rendering of the generated field library and the three back ends behind one calling interface."""
import itertools, json, os, subprocess, random
import absint
from limb import *
from asm import X86, Arm, Mem, Ptr, State, parse_nasm, parse_gas
from llw import LL
from report import REPO, ROOT

PRIMES = {
    "bn254r": 0x30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001,
    "secp256k1": 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f,
    "goldilocks": 0xffffffff00000001,
    "m127": (1 << 127) - 1,
    "bls381q": 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab,
    "bls381r": 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001,
    "bn254q": 0x30644e72e131a029b85045b68181585d97816a916871ca8d3c208c16d87cfd47,
    "c25519": (1 << 255) - 19,
    "p128": (1 << 128) - 159,
    "p192": (1 << 192) - (1 << 64) - 1,
    "p61": (1 << 61) - 1,
    "p224": (1 << 224) - (1 << 96) + 1,
    "p384": (1 << 384) - (1 << 128) - (1 << 96) + (1 << 32) - 1,
    "bls446": 0x3cdee0fb28c5e535200fc34965aad6400095a4b78a02fe320f75a64bbac71602824e6dc3e23acdee56ee4528c573b5cc311c0026aab0aaab,
    "p448": (1 << 448) - (1 << 224) - 1,
    "p521": (1 << 521) - 1,
    "mnt753": 0x01c4c62d92c41110229022eee2cdadb7f997505b8fafed5eb7e8f96c97d87307fdb925e8a0ed8d99d124d9a15af79db117e776f218059db80f0da5cb537e38685acce9767254a4638810719ac425f0e39d54522cdd119f5e9063de245e8001,
}


def words_of(v, n):
    return [(v >> (64 * i)) & (M64 - 1) for i in range(n)]


class Rendered:
    def __init__(self, key, name="Fr", q=None):
        self.key, self.name = key, name
        self.q = q or PRIMES[key]
        self.n = (self.q.bit_length() - 1) // 64 + 1
        self.dir = os.path.join(absint.WORK, "gen_" + key + "_" + name)
        if os.path.isdir(self.dir):
            self.fill()
            return
        tmp = self.dir + ".%d" % os.getpid()
        os.makedirs(tmp, exist_ok=True)
        r = subprocess.run(["node", os.path.join(ROOT, "tools", "render.js"), REPO, tmp, json.dumps({"q": str(self.q), "name": name})],
                           capture_output=True, text=True, timeout=120)
        if r.returncode:
            raise RuntimeError("the generator fails for %s: %s" % (key, r.stderr[-1500:]))
        try:
            os.rename(tmp, self.dir)
        except OSError:
            pass
        self.fill()

    def fill(self):
        self.R = pow(2, 64 * self.n, self.q)
        self.bits = self.q.bit_length()
        self._ir = {}

    def path(self, suffix):
        return os.path.join(self.dir, self.name.lower() + suffix)

    def text(self, suffix):
        return open(self.path(suffix)).read()

    def nasm(self):
        if not hasattr(self, "_nasm"):
            self._nasm = parse_nasm(self.text(".asm"))
        return self._nasm

    def gas(self):
        if not hasattr(self, "_gas"):
            self._gas = parse_gas(self.text("_raw_arm64.s"))
        return self._gas

    def ir(self, suffixes, flags=()):
        k = (suffixes, flags)
        if k not in self._ir:
            tu = os.path.join(self.dir, "tu_%d_%d.cpp" % (os.getpid(), len(self._ir)))
            with open(tu, "w") as f:
                for s in suffixes:
                    f.write('#include "%s"\n' % self.path(s))
            self._ir[k] = absint.compile_ir(tu, ["-I", self.dir] + list(flags))
        return self._ir[k]


class Call:
    """one abstract call of one routine"""

    def __init__(self, be, fname, depth=2):
        self.be, self.fname = be, fname
        self.q, self.n = be.ren.q, be.ren.n
        self.ctx = Ctx(self.q, self.n, depth)
        self.mem = Mem(self.ctx)
        self.eng = be.engine(self)
        self.args = []
        self.init = {}

    def block(self, name, top=None):
        return self.ctx.block(name, self.n, top)

    def region(self, name, cells=None, size=None, write=True):
        """cells: offset -> cell"""
        size = size or 8 * self.n
        p = self.mem.region(name, size, write)
        self.init[name] = dict(cells or {})
        return p

    def words(self, name, ws, write=True):
        return self.region(name, {8 * i: ("q", w) for i, w in enumerate(ws)}, 8 * len(ws), write)

    def run(self):
        st = self.be.start(self)
        for k, v in self.init.items():
            st.mem[k] = dict(v)
        return self.eng.run(st)

    def ret(self, st, w=32):
        v = self.be.ret(st)
        return v

    def get(self, st, region, n=None, off=0):
        return [self.mem.load(st, Ptr(region, off + 8 * i)) for i in range(n or self.n)]


class BX86:
    kind = "x86-64"

    def __init__(self, ren):
        self.ren, self.P = ren, ren.nasm()

    def has(self, f):
        return f in self.P.labels

    def exported(self, f):
        return f in self.P.globals

    def engine(self, c):
        return X86(self.P, c.ctx, c.mem)

    def start(self, c):
        return c.eng.start(c.fname, dict(zip(("rdi", "rsi", "rdx", "rcx"), c.args)))

    def ret(self, st):
        return st.reg["rax"]

    def abi(self, c, st):
        return c.eng.abi(st)

    file = ".asm"


class BArm:
    kind = "AArch64"

    def __init__(self, ren):
        self.ren, self.P = ren, ren.gas()

    def has(self, f):
        return f in self.P.labels

    def exported(self, f):
        return f in self.P.globals

    def engine(self, c):
        return Arm(self.P, c.ctx, c.mem)

    def start(self, c):
        return c.eng.start(c.fname, dict(zip(("x0", "x1", "x2", "x3"), c.args)))

    def ret(self, st):
        return st.reg["x0"]

    def abi(self, c, st):
        return c.eng.abi(st)

    file = "_raw_arm64.s"


class BCpp:
    kind = "portable C++"

    def __init__(self, ren, suffixes=("_raw_generic.cpp",), flags=()):
        self.ren = ren
        self.mod = ren.ir(suffixes, flags)
        self.names = {}
        for n, d in self.mod["functions"].items():
            if not d["decl"]:
                self.names.setdefault(d["dem"].split("(")[0], n)

    def has(self, f):
        return f in self.names

    exported = has

    def engine(self, c):
        return LL(self.mod, c.ctx, c.mem)

    def start(self, c):
        return c.eng.start(self.names[c.fname], c.args)

    def ret(self, st):
        return st.reg.get("ret")

    def abi(self, c, st):
        return []

    file = "_raw_generic.cpp"


# ------------------------------------------------------------------ proofs over limb polynomials
def value(ws):
    t = {}
    for i, w in enumerate(ws):
        if not isinstance(w, V):
            raise Undecided("an address is stored as a number")
        t = padd(t, w.p, 1 << 64 * i)
    return t


def subst(ctx, p, a, e):
    """p[a := e]; e a polynomial scaled by 2^SH"""
    r = {}
    for m, c in p.items():
        if a not in m:
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
            continue
        k = m.count(a)
        rest = tuple(x for x in m if x != a)
        if k > 1 or len(rest) > 1:
            return None
        for m2, c2 in e.items():
            x = c * c2
            if x & (ctx.one - 1):
                return None
            mm = tuple(sorted(rest + m2))
            if len(mm) > 2:
                return None
            v = r.get(mm, 0) + (x >> ctx.SH)
            if v:
                r[mm] = v
            else:
                r.pop(mm, None)
    return r


def closed(ctx, st, a):
    """what the low-part unknown a equals when its high part is a known number on this path, else None"""
    key = ("h", a, st.fid)
    if key in st.bcache:
        return st.bcache[key]
    st.bcache[key] = None
    _, raw, s = ctx.defs[a]
    src = close(ctx, st, raw)
    b = ctx.bound(st, raw)
    b = b[0] >> s, b[1] >> s
    if b[0] != b[1]:
        b = ctx.bound(st, src)
        b = b[0] >> s, b[1] >> s
    if b[0] != b[1]:
        h = {m: c >> s for m, c in padd(raw, {(a,): -ctx.one}).items()}
        b = ctx.bound(st, h)
    if b[0] != b[1]:
        h = {m: c >> s for m, c in padd(src, {(a,): -ctx.one}).items()}
        if all(not c & ((1 << s) - 1) for c in padd(src, {(a,): -ctx.one}).values()):
            b = ctx.bound(st, h)
    if b[0] == b[1]:
        st.bcache[key] = padd(src, {(): (b[0] << s) << ctx.SH}, -1) if b[0] else src
    return st.bcache[key]


def close(ctx, st, p):
    """replace low-part unknowns whose high part is a known number, and unknowns with a single possible value"""
    seen = set()
    while True:
        cand = sorted({a for m in p for a in m if a not in seen}, reverse=True)
        for a in cand:
            seen.add(a)
            l, h = ctx.arng(st, a)
            e = None
            if l == h:
                e = {(): l << ctx.SH} if l else {}
            elif ctx.defs[a][0] == "lo":
                e = closed(ctx, st, a)
            if e is not None:
                x = subst(ctx, p, a, e)
                if x is not None:
                    p = x
                    break
        else:
            return p


def carry_facts(ctx, st, atoms):
    """for low-part unknowns whose high part is not a known number: the range of the high part"""
    out = []
    for a in atoms:
        if ctx.defs[a][0] != "lo" or closed(ctx, st, a) is not None:
            continue
        _, src, s = ctx.defs[a]
        forms = [{m: c >> s for m, c in padd(x, {(a,): -ctx.one}).items()} for x in (src, close(ctx, st, src))
                 if all(not c & ((1 << s) - 1) for c in padd(x, {(a,): -ctx.one}).values())]
        bs = [ctx.bound(st, f) for f in forms]
        lo, hi = max(b[0] for b in bs), min(b[1] for b in bs)
        if hi - lo <= 4:
            out += [(f, lo, hi) for f in forms]
    return out


def strengthen(ctx, st, p=()):
    """add the closed forms of the facts of the path"""
    at = {a for m in p for a in m} | {a for f in st.facts for m in f[0] for a in m}
    new = carry_facts(ctx, st, sorted(at))
    if new:
        st.facts = st.facts + new
        st.touch()
    extra = []
    for a, (l, h) in st.rng.items():
        if l == h and ctx.defs[a][0] == "lo":
            e = closed(ctx, st, a)
            if e:
                extra.append((e, l, h))
    for f, lo, hi in st.facts:
        if lo is None or lo != hi:
            continue
        # an equation that only defines its youngest unknowns: keep what their ranges say about the older ones
        side = {s: [m for m, c in f.items() if len(m) == 1 and ctx.defs[m[0]][0] == "lo" and (c > 0) == s] for s in (True, False)}
        drop = max(side.values(), key=lambda g: max(g) if g else ())
        rest = {m: c for m, c in f.items() if m not in drop}
        if any(m for m in rest):
            # what is left need not be an integer: scale it to one
            k = max(0, ctx.SH - min((c & -c).bit_length() - 1 for c in rest.values()))
            rest = {m: c << k for m, c in rest.items()}
            l, h = ctx.direct_int(st, {m: -f[m] << k for m in drop})
            extra.append((rest, (lo << k) + l, (hi << k) + h))
    if extra:
        st.facts = st.facts + extra
        st.touch()
    for rnd in range(2):
        seen = {(frozenset(p.items()), lo, hi) for p, lo, hi in st.facts}
        new = []
        for p, lo, hi in st.facts + [({(a,): ctx.one}, l, h) for a, (l, h) in st.rng.items() if l != h]:
            c = close(ctx, st, p)
            k = (frozenset(c.items()), lo, hi)
            if c and k not in seen and any(m for m in c):
                seen.add(k)
                new.append((c, lo, hi))
        if new:
            st.facts = st.facts + new
            st.touch()
        for i, (p, lo, hi) in enumerate(st.facts):
            if lo is None or hi is None or lo != hi:
                l, h = ctx.bound(st, p)
                l, h = l if lo is None else max(l, lo), h if hi is None else min(h, hi)
                if l > h:
                    raise Infeasible()
                if l == h:
                    st.facts = st.facts[:i] + [(p, l, h)] + st.facts[i + 1:]
                    new = True
        if not new:
            break
        st.touch()


def cases(ctx, st, p):
    """the path split on the value of one carry left open in p: a list of paths, or None"""
    for a in sorted({a for m in p for a in m}, reverse=True):
        if ctx.defs[a][0] != "lo" or closed(ctx, st, a) is not None:
            continue
        fs = carry_facts(ctx, st, [a])
        if not fs:
            continue
        _, lo, hi = fs[0]
        out = []
        for v in range(lo, hi + 1):
            s = st.clone()
            s.facts = s.facts + [(f, v, v) for f, _, _ in fs]
            s.touch()
            out.append(s)
        return out
    return None


def eq_facts(ctx, st):
    out = [padd(p, {(): lo << ctx.SH}, -1) if lo else p for p, lo, hi in list(st.facts) + ctx.gfacts if lo is not None and lo == hi]
    return out


def cong_zero(ctx, st, d, mod):
    """every value of d on this path is a multiple of mod (0: is zero)"""
    def red(p):
        return {m: c % mod for m, c in p.items() if c % mod} if mod else p
    p = red(d)
    if not p:
        return True
    p = red(close(ctx, st, d))
    if not p:
        return True
    if not mod:
        b = ctx.bound(st, close(ctx, st, d))
        return b == (0, 0)
    rows = []
    for f in eq_facts(ctx, st):
        f = red(close(ctx, st, f))
        for m0, r in rows:
            if m0 in f:
                f = red(padd(f, r, -f[m0]))
        ms = [m for m in f if m]
        if not ms:
            continue
        m0 = max(ms)
        try:
            inv = pow(f[m0], -1, mod)
        except ValueError:
            continue
        rows.append((m0, red(pscale(f, inv))))
    for m0, r in rows:
        if m0 in p:
            p = red(padd(p, r, -p[m0]))
    return not p


def in_range(ctx, st, p, lo, hi):
    b = ctx.bound(st, p)
    if b[0] >= lo and b[1] <= hi:
        return True
    b2 = ctx.bound(st, close(ctx, st, p))
    return max(b[0], b2[0]) >= lo and min(b[1], b2[1]) <= hi


def on_path(ctx, ev, st):
    """does the assignment behind ev follow this path?"""
    for p, lo, hi in st.facts:
        x = ev(p)
        if (lo is not None and x < lo) or (hi is not None and x > hi):
            return False
    for a, (lo, hi) in st.rng.items():
        x = ev({(a,): ctx.one})
        if not lo <= x <= hi:
            return False
    for k in st.ne:
        if ev(dict(k)) == 0:
            return False
    return True


def samples(q, n, names, count, seed=1, tops=None):
    """assignments for the named blocks: boundary values and limbs made of boundary words"""
    rnd = random.Random(seed)
    qs = words_of(q, n)
    wpool = [0, 1, 2, M64 - 1, M64 - 2, 1 << 63, (1 << 63) - 1] + qs
    spec = [0, 1, 2, q - 1, q - 2, q // 2, q // 2 + 1, (1 << (q.bit_length() - 1)), (1 << (q.bit_length() - 1)) - 1]
    tops = tops or {}

    def one():
        k = rnd.random()
        if k < 0.35:
            return rnd.choice(spec)
        if k < 0.7:
            return sum(rnd.choice(wpool) << (64 * i) for i in range(n))
        return rnd.randrange(q)
    for i in range(count):
        d = {}
        for nm in names:
            d[nm] = one() % (tops.get(nm, q - 1) + 1)
        if len(names) > 1 and rnd.random() < 0.2:
            a, b = rnd.sample(names, 2)
            d[b] = (q - d[a]) % q if rnd.random() < 0.5 else d[a] % (tops.get(b, q - 1) + 1)
        yield d


SCALARS = [0, 1, 2, 3, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff, 1 << 32, (1 << 63) - 1, 1 << 63, M64 - 1]


def partitions(k):
    """all ways to let k pointer parameters coincide: tuples of class numbers"""
    def go(i, mx, cur):
        if i == k:
            yield tuple(cur)
            return
        for c in range(mx + 1):
            yield from go(i + 1, max(mx, c + 1), cur + [c])
    return go(0, 0, [])
