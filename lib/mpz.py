"""GMP integers for the abstract interpreter: constant integers plus the init/clear typestate."""
import re
from absint import *


def install(m):
    m.mpz_bad = []

    def key(m, s, p):
        if not isinstance(p, Ptr):
            raise Undecided("unresolved mpz at %s" % m.where(s))
        return (p.obj, m.offset(s, p))

    def live(s):
        return s.tags.get("mpz", frozenset())

    def get(m, s, p):
        k = key(m, s, p)
        if k not in live(s):
            m.mpz_bad.append((m.where(s), "a GMP integer is used before it is initialised or after it is cleared"))
            raise Undecided("uninitialised mpz")
        v = s.mem[k[0]].cells.get(k[1])
        if v is None or not isinstance(v[1], int):
            raise Undecided("mpz value not constant at %s" % m.where(s))
        return v[1]

    def put(m, s, p, v, init=False):
        k = key(m, s, p)
        if init:
            if k in live(s):
                m.mpz_bad.append((m.where(s), "a GMP integer is initialised twice (the first value is never released)"))
            s.tags["mpz"] = live(s) | {k}
        elif k not in live(s):
            m.mpz_bad.append((m.where(s), "a GMP integer is assigned before it is initialised or after it is cleared"))
            s.tags["mpz"] = live(s) | {k}
        m.store(s, p, 16, v)

    def f(m, s, ins, a):
        op = re.search(r"__gmpz_(\w+)", m.mod["functions"][m.val(s, ins["callee"]).name]["dem"]).group(1)
        G = lambda i: get(m, s, a[i])
        S = lambda i, w=64: sgn(a[i], w)
        for x in a[1:]:
            if isinstance(x, (Poly, Top)):
                raise Undecided("mpz operand not constant")
        if op == "init" or op == "init2":
            put(m, s, a[0], 0, True)
        elif op == "inits" or op == "clears":
            for x in a[:-1]:
                if op == "inits":
                    put(m, s, x, 0, True)
                else:
                    s.tags["mpz"] = live(s) - {key(m, s, x)}
        elif op == "init_set":
            put(m, s, a[0], G(1), True)
        elif op == "init_set_ui":
            put(m, s, a[0], a[1], True)
        elif op == "init_set_si":
            put(m, s, a[0], S(1), True)
        elif op == "clear":
            k = key(m, s, a[0])
            if k not in live(s):
                m.mpz_bad.append((m.where(s), "a GMP integer is cleared twice or was never initialised"))
            s.tags["mpz"] = live(s) - {k}
            s.w(k[0]).cells.pop(k[1], None)
        elif op == "set":
            put(m, s, a[0], G(1))
        elif op in ("set_ui",):
            put(m, s, a[0], a[1])
        elif op == "set_si":
            put(m, s, a[0], S(1))
        elif op in ("add", "sub", "mul", "and", "ior", "xor"):
            x, y = G(1), G(2)
            put(m, s, a[0], {"add": x + y, "sub": x - y, "mul": x * y, "and": x & y, "ior": x | y, "xor": x ^ y}[op])
        elif op in ("add_ui", "sub_ui", "mul_ui"):
            x, y = G(1), a[2]
            put(m, s, a[0], {"add_ui": x + y, "sub_ui": x - y, "mul_ui": x * y}[op])
        elif op == "ui_sub":
            put(m, s, a[0], a[1] - G(2))
        elif op == "neg":
            put(m, s, a[0], -G(1))
        elif op in ("fdiv_q_2exp", "tdiv_q_2exp"):
            x = G(1)
            put(m, s, a[0], x >> a[2] if op[0] == "f" or x >= 0 else -((-x) >> a[2]))
        elif op in ("fdiv_r_2exp",):
            put(m, s, a[0], G(1) % (1 << a[2]))
        elif op == "mul_2exp":
            put(m, s, a[0], G(1) << a[2])
        elif op in ("mod", "fdiv_r"):
            put(m, s, a[0], G(1) % abs(G(2)))
        elif op in ("fdiv_q", "divexact"):
            put(m, s, a[0], G(1) // G(2))
        elif op == "tdiv_q":
            x, y = G(1), G(2)
            q = abs(x) // abs(y)
            put(m, s, a[0], q if (x < 0) == (y < 0) else -q)
        elif op in ("fdiv_q_ui", "tdiv_q_ui"):
            put(m, s, a[0], G(1) // a[2])
            return G(1) % a[2]
        elif op == "powm":
            put(m, s, a[0], pow(G(1), G(2), abs(G(3))))
        elif op == "powm_ui":
            put(m, s, a[0], pow(G(1), a[2], abs(G(3))))
        elif op == "invert":
            try:
                put(m, s, a[0], pow(G(1), -1, abs(G(2))))
                return 1
            except ValueError:
                return 0
        elif op == "cmp":
            x, y = G(0), G(1)
            return (x > y) - (x < y) & 0xffffffff
        elif op == "cmp_ui":
            x = G(0)
            return ((x > a[1]) - (x < a[1])) & 0xffffffff
        elif op == "cmp_si":
            x = G(0)
            return ((x > S(1)) - (x < S(1))) & 0xffffffff
        elif op == "tstbit":
            return (G(0) >> a[1]) & 1
        elif op == "scan1":
            x = G(0) >> a[1]
            return (1 << 64) - 1 if x == 0 else a[1] + (x & -x).bit_length() - 1
        elif op == "sizeinbase":
            x = abs(G(0))
            if a[1] == 2:
                return max(1, x.bit_length())
            raise Undecided("sizeinbase")
        elif op == "get_ui":
            return abs(G(0)) & (1 << 64) - 1
        elif op == "fits_sint_p":
            return int(-(1 << 31) <= G(0) < 1 << 31)
        elif op == "swap":
            x, y = G(0), G(1)
            put(m, s, a[0], y)
            put(m, s, a[1], x)
        else:
            raise Undecided("mpz_%s not modelled" % op)
        return None
    m.register(r"^__gmpz_\w+", f)
    m.mpz_get, m.mpz_put = get, put
