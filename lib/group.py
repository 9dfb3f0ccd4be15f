"""Opaque abelian group client: group elements are integer linear forms over base symbols."""
import re
from poly import Poly, P, Rat, SY
from absint import *
from ring import elem


class GroupClient:
    def __init__(self):
        pass

    def is_zero(self, m, s, v):
        n = v.n
        if n.is_zero():
            return True
        k = m.ckey(("gz", n))
        if k in s.known:
            return s.known[k]
        nz = s.tags.get("nz", ())
        if any(n == f or n == -f for f in nz):
            return False
        raise NeedFork(("gz", n))

    def assume(self, m, s, cond, truth):
        if cond[0] == "gz" and truth:
            s.zero.append(cond[1])
        return True


def residual(s, v):
    """linear form v modulo the zero facts recorded on the partition"""
    for z in s.zero:
        for mo, c in sorted(z.t.items()):
            if c in (1, -1) and len(mo) == 1 and mo[0][1] == 1:
                sy = mo[0][0]
                rest = (Poly({mo: c}) - z).scale(c)
                v = v.subst({sy: rest})
                break
    return v


SIZES = {"Point": 128, "PointAffine": 64}


def install(m, mul_by_scalar=None):
    m.client = GroupClient()
    m.client_uninit = []
    m.group_calls = {}

    def handler(mm, s, ins, a):
        callee = mm.val(s, ins["callee"]).name
        dem = mm.mod["functions"][callee]["dem"]
        mo = re.match(r"^(?:AbsGroup|Curve<AbsField>)::(\w+|operator=)\((.*)\)", dem)
        if not mo:
            return NotImplemented
        op = mo.group(1)
        tys = re.findall(r"(?:AbsGroup|Curve<AbsField>)::(PointAffine|Point)\b", mo.group(2))
        mm.group_calls[op] = mm.group_calls.get(op, 0) + 1
        if op in ("zero", "zeroAffine"):
            sz = 128 if op == "zero" else 64
            key = ("G", op)
            oid = s.tags.get(key)
            if oid is None:
                oid = s.alloc(sz, "group::" + op, "const")
                s.mem[oid].cells[0] = (sz, Rat(0))
                s.tags[key] = oid
            return Ptr(oid, 0)
        args = a[1:]
        E = lambda i: elem(mm, s, args[i], SIZES[tys[i]], op)
        if op in ("add", "sub"):
            x, y = E(1), E(2)
            mm.store(s, args[0], SIZES[tys[0]], x + y if op == "add" else x - y)
            return None
        if op in ("dbl", "neg", "copy"):
            x = E(1)
            mm.store(s, args[0], SIZES[tys[0]], x + x if op == "dbl" else -x if op == "neg" else x)
            return None
        if op == "isZero":
            return int(mm.client.is_zero(mm, s, E(0)))
        if op == "eq":
            return int(mm.client.is_zero(mm, s, E(0) - E(1)))
        if op == "mulByScalar" and mul_by_scalar:
            return mul_by_scalar(mm, s, args, tys)
        if dem.startswith("Curve<"):
            return NotImplemented       # the curve's own entry points are interpreted
        raise Undecided("group operation %s not modelled" % op)
    m.register(r"^AbsGroup::", handler)
    m.register(r"^Curve<AbsField>::", handler)
