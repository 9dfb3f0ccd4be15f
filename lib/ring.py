"""Ring client of the abstract interpreter: opaque field operations as polynomial transfer functions."""
import re
from poly import Poly, P, Rat, SY
from absint import *

RING = r"^(?:const )?(?:AbsField|AbsF2|AbsF6)(?:::Element)?(?:&)?"


class RingClient:
    """char: None (polynomial identities over Z) or a prime (constants reduced mod p)."""

    def __init__(self, char=None):
        self.p = char
        self.invs = []
        self.string_value = None

    def red(self, v):
        if self.p:
            if isinstance(v, Rat):
                if v.d.is_const() and v.d.cval() != 1:
                    return Rat((v.n * pow(v.d.cval(), -1, self.p)).mod(self.p))
                return Rat(v.n.mod(self.p), v.d.mod(self.p))
        return v

    # --- zero decisions
    def factor_nonzero(self, s, n):
        nz = s.tags.get("nz", ())
        if n.is_const():
            return bool(n.cval() % self.p) if self.p else n.cval() != 0
        changed = True
        while changed and not n.is_const():
            changed = False
            for f in nz:
                if f.is_const():
                    continue
                q = n.divexact(f, self.p)
                if q is not None:
                    n = q
                    changed = True
                    break
        return n.is_const() and not n.is_zero()

    def is_zero(self, m, s, v):
        v = v if isinstance(v, Rat) else Rat(v)
        n = v.n.mod(self.p) if self.p else v.n
        if n.is_zero():
            return True
        if self.factor_nonzero(s, n):
            return False
        n = prim(n)
        for z in s.zero:
            if n == z or n.divexact(z, self.p) is not None:
                return True
        k = m.ckey(("z", n))
        if k in s.known:
            return s.known[k]
        raise NeedFork(("z", n))

    def assume(self, m, s, cond, truth):
        if cond[0] == "z":
            if truth:
                s.zero.append(cond[1])
            else:
                s.tags["nz"] = s.tags.get("nz", ()) + (cond[1],)
        return True


def prim(n):
    """canonical scalar multiple"""
    import math
    g = 0
    for c in n.t.values():
        g = math.gcd(g, c)
    if n.t[n.lead()] < 0:
        g = -g
    return Poly({k: c // g for k, c in n.t.items()})


def elem(m, s, p, size, what):
    """read the ring element at p; reports uninitialised reads"""
    if not isinstance(p, Ptr):
        raise Undecided("unresolved element pointer at %s" % m.where(s))
    o, off = m.access(s, p, size, False)
    if o is None:
        raise Undecided("unresolved element at %s" % m.where(s))
    c = o.cells.get(off)
    if c is None or c[0] != size or not isinstance(c[1], (Rat, Poly)):
        z = m.read(s, p.obj, off, size)
        if isinstance(z, tuple) and z and z[0] == "Z":
            return Rat(0)
        if isinstance(z, (Rat, Poly)):
            return z if isinstance(z, Rat) else Rat(z)
        if o.kind in ("alloca", "heap") and o.pristine and not any(off < co + cs and co < off + size for co, (cs, _) in o.cells.items()):
            if not hasattr(m, "real") or m.real(s):
                m.client_uninit.append((m.where(s), "%s reads an element that was never written (%s+%s)" % (what, o.name, off)))
            return Rat(Poly.sym("uninit{%s+%s@%d}" % (o.name, off, p.obj)))
        raise Undecided("element at %s is not a tracked ring value (%s)" % (m.where(s), z))
    return c[1] if isinstance(c[1], Rat) else Rat(c[1])


SIZES = {"AbsField": 32, "AbsF2": 64, "AbsF6": 192}


def install(m, client, strings=None, xi="xi", tau="tau", singletons=None):
    """strings: callback(ring, text) -> Poly value of fromString"""
    m.client = client
    m.client_uninit = []
    m.divisors = []
    m.ring_calls = {}

    def ring_of(s, ins, name):
        return re.match(r"^(AbsField|AbsF2|AbsF6)", m.mod["functions"][name]["dem"]).group(1)

    def handler(mm, s, ins, a):
        callee = mm.val(s, ins["callee"]).name
        dem = mm.mod["functions"][callee]["dem"]
        mo = re.match(r"^(AbsField|AbsF2|AbsF6)::(~?\w+|operator=)(?:\[abi:cxx11\])?\(", dem)
        if not mo:
            return NotImplemented
        ring, op = mo.group(1), mo.group(2)
        sz = SIZES[ring]
        mm.ring_calls[op] = mm.ring_calls.get(op, 0) + 1
        nargs = len(a)
        if op in ("zero", "one", "negOne", "zero_"):
            key = ("K", ring, op)
            oid = s.tags.get(key)
            if oid is None:
                oid = s.alloc(sz, ring + "::" + op, "const")
                s.mem[oid].cells[0] = (sz, Rat({"zero": 0, "zero_": 0, "one": 1, "negOne": -1}[op]))
                s.tags[key] = oid
            return Ptr(oid, 0)
        if op in ("AbsField", "AbsF2", "AbsF6", "operator="):
            return a[0]
        E = lambda p, q=sz: elem(mm, s, p, q, op)

        def put(p, v):
            mm.store(s, p, sz, client.red(v))
        # by-value forms come with sret first
        fd = mm.mod["functions"][callee]
        sret = fd["args"] and fd["args"][0][2] == "sret"
        if sret:
            r, args = a[0], a[2:]
        else:
            r, args = (a[1] if nargs > 1 else None), a[2:]
        if op == "set" or op == "fromUI":
            v = args[0]
            v = mm.norm(s, v, 32 if op == "set" else 64, op == "set")
            put(r, Rat(P(v)))
            return None
        if op == "fromString":
            if strings is None:
                raise Undecided("fromString")
            put(r, strings(mm, s, ring, args))
            return None
        if op == "swap":
            x, y = E(a[1]), E(a[2])
            put(a[1], y)
            put(a[2], x)
            return None
        if op in ("eq",):
            return int(client.is_zero(mm, s, E(a[1]) - E(a[2])))
        if op == "isZero":
            return int(client.is_zero(mm, s, E(a[1])))
        if op == "isOne":
            return int(client.is_zero(mm, s, E(a[1]) - 1))
        if op == "copy":
            put(r, E(args[0]))
            return None
        if op in ("add", "sub", "mul", "div"):
            x, y = E(args[0]), E(args[1])
            if op == "add":
                v = x + y
            elif op == "sub":
                v = x - y
            elif op == "mul":
                v = x * y
            else:
                mm.divisors.append((mm.where(s), y, s))
                v = x / y
            put(r, v)
            return None
        if op == "mul1":
            x = E(args[0])
            put(r, x * P(mm.norm(s, args[1], 64, False)))
            return None
        if op in ("neg", "square", "dbl", "inv"):
            x = E(args[0])
            if op == "neg":
                v = -x
            elif op == "square":
                v = x * x
            elif op == "dbl":
                v = x + x
            else:
                mm.divisors.append((mm.where(s), x, s))
                v = x.inv()
            put(r, v)
            return None
        if op == "mulXi":
            put(r, E(args[0]) * Poly.sym(xi))
            return None
        if op == "mulTau":
            put(r, E(args[0]) * Poly.sym(tau))
            return None
        if op == "mulScalar":
            put(r, E(args[0]) * elem(mm, s, args[1], {"AbsF2": 32, "AbsF6": 64}[ring], op))
            return None
        if op == "mulGFP":
            put(r, E(args[0]) * elem(mm, s, args[1], 32, op))
            return None
        if op == "toString":
            return mm.to_text(mm, s, ring, a) if hasattr(mm, "to_text") else None
        raise Undecided("ring operation %s not modelled (%s)" % (op, mm.where(s)))
    m.register(r"^(AbsField|AbsF2|AbsF6)::", handler)


def install_strings(m):
    """std::string as an opaque object holding a Python string"""
    B = r"^(?:void )?std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>::"

    def getstr(mm, s, p):
        if isinstance(p, Ptr) and p.obj in s.mem:
            c = s.mem[p.obj].cells.get(p.off if isinstance(p.off, int) else -1)
            if c and isinstance(c[1], PyStr):
                return c[1].v
        return None
    m.getstr = lambda s, p: getstr(m, s, p)

    def put(mm, s, p, v):
        mm.store(s, p, 32, PyStr(v))

    def ctor(mm, s, ins, a):
        dem = mm.mod["functions"][mm.val(s, ins["callee"]).name]["dem"]
        if "char const*" in dem.split("(", 1)[1] and len(a) == 3:
            put(mm, s, a[0], mm.cstr(s, a[1]))
        elif len(a) == 2 and ("basic_string" in dem.split("(", 1)[1]):
            put(mm, s, a[0], getstr(mm, s, a[1]))
        elif len(a) == 1:
            put(mm, s, a[0], "")
        else:
            put(mm, s, a[0], None)
        return None
    m.register(B + r"basic_string(<.*>)?\(", ctor)
    m.register(B + r"~basic_string\(", lambda mm, s, ins, a: None)
    m.register(r"^std::(__new_allocator|allocator)<char>::(~?)(allocator|__new_allocator)\(", lambda mm, s, ins, a: None)
    m.register(r"^__gnu_cxx::new_allocator<char>::", lambda mm, s, ins, a: None)


class PyStr:
    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "str(%r)" % (self.v,)
