"""Join engine for loops: partitions that reach the same back-edge with the same control state are merged when the
ring-valued cells of all of them are instances of one affine form over the choice symbols (Karr's affine domain)."""
from fractions import Fraction
from poly import Poly, P, SY, Rat
from absint import *


def uses(ins):
    def walk(v):
        if isinstance(v, list):
            if len(v) == 2 and v[0] == "r" and isinstance(v[1], int):
                yield v[1]
            else:
                for x in v:
                    yield from walk(x)
    for k, v in ins.items():
        if k in ("id", "succ", "line", "file"):
            continue
        if isinstance(v, list):
            yield from walk(v)


def succs(ins):
    r = list(ins.get("succ", []))
    for k in ("normal", "unwind", "default"):
        if k in ins and isinstance(ins[k], int):
            r.append(ins[k])
    for c in ins.get("cases", []):
        r.append(c[1])
    return r


class Live:
    def __init__(self, mod):
        self.mod = mod
        self.c = {}
        self.at = {}

    def fn(self, name):
        if name in self.c:
            return self.c[name]
        bl = self.mod["functions"][name]["blocks"]
        n = len(bl)
        out = [set() for _ in range(n)]
        inn = [set() for _ in range(n)]
        phiuse = [dict() for _ in range(n)]
        for b in range(n):
            for ins in bl[b]:
                if ins["op"] == "phi":
                    for v, p in ins["in"]:
                        if v[0] == "r":
                            phiuse[b].setdefault(p, set()).add(v[1])
        ch = True
        while ch:
            ch = False
            for b in reversed(range(n)):
                o = set()
                for t in succs(bl[b][-1]):
                    phis = {i["id"] for i in bl[t] if i["op"] == "phi"}
                    o |= (inn[t] - phis) | phiuse[t].get(b, set())
                l = set(o)
                for ins in reversed(bl[b]):
                    if "id" in ins:
                        l.discard(ins["id"])
                    if ins["op"] != "phi":
                        l |= set(uses(ins))
                    else:
                        pass
                # phi definitions count as available at block start
                if o != out[b] or l != inn[b]:
                    out[b], inn[b] = o, l
                    ch = True
        self.c[name] = out
        return out

    def live(self, name, blk, ip, after_call):
        k = (name, blk, ip, after_call)
        if k in self.at:
            return self.at[k]
        out = self.fn(name)
        bl = self.mod["functions"][name]["blocks"]
        l = set(out[blk])
        for j in range(len(bl[blk]) - 1, ip - 1, -1):
            ins = bl[blk][j]
            if "id" in ins:
                l.discard(ins["id"])
            if ins["op"] != "phi" and not (after_call and j == ip and False):
                l |= set(uses(ins))
        # phi ids of this block used later are kept because they are uses
        self.at[k] = l
        return l


def fixed_choices(s, choice):
    f = {}
    for k in s.bounds:
        if len(k) == 1 and len(k[0][0]) == 1 and k[0][0][0][1] == 1 and k[0][1] == 1:
            sy = k[0][0][0][0]
            if sy in choice:
                lo, hi = s.bounds[k]
                lo = SY.lo[sy] if lo is None else max(lo, SY.lo[sy])
                hi = SY.hi[sy] if hi is None else min(hi, SY.hi[sy])
                if lo == hi:
                    f[sy] = lo
    return f


def subst_int(s, v, fixed):
    if isinstance(v, Poly) and fixed:
        w = v.subst({j: P(x) for j, x in fixed.items()})
        return simp(w)
    if isinstance(v, Ptr) and isinstance(v.off, Poly):
        return Ptr(v.obj, subst_int(s, v.off, fixed))
    return v


class Joiner:
    """choice: {symbol id: {value: delta}} ; deltasym: {symbol id: ring symbol id standing for the digit's weight factor}"""

    def __init__(self, m, choice, deltasym, drop=None):
        self.m = m
        self.live = Live(m.mod)
        self.choice = choice
        self.ds = deltasym
        self.drop = drop
        self.joined = 0
        self.maxwidth = 0
        self.nstates = 0

    def fixed(self, s):
        return fixed_choices(s, self.choice)

    def prepare(self, s):
        """prune dead registers, substitute fixed choices"""
        fx = self.fixed(s)
        for i, f in enumerate(s.frames):
            lv = self.live.live(f.fn, f.blk, f.ip, i < len(s.frames) - 1)
            f.env = {k: subst_int(s, v, fx) for k, v in f.env.items() if k in lv}
        return fx

    def key(self, s, fx):
        fr = tuple((f.fn, f.blk, f.ip, f.prev if False else -1, tuple(sorted((k, vkey(v)) for k, v in f.env.items()))) for f in s.frames)
        cells = []
        vals = []
        for i, o in sorted(s.mem.items()):
            if o.kind == "const":
                continue
            for c, (sz, v) in sorted(o.cells.items()):
                if isinstance(v, Rat):
                    cells.append((i, c, sz, "R"))
                    vals.append((i, c, v))
                else:
                    cells.append((i, c, sz, vkey(subst_int(s, v, fx) if isinstance(v, Poly) and o.kind != "input" and not self.raw(v) else v)))
        tg = tuple(sorted((repr(k), vkey(v)) for k, v in s.tags.items() if k != "forgot"))
        bd = tuple(sorted((k, v) for k, v in s.bounds.items() if not self.choicekey(k)))
        return (fr, tuple(cells), tg, bd), vals

    def raw(self, v):
        """an input choice kept verbatim in memory"""
        return len(v.t) == 1 and v.syms() <= set(self.choice) and list(v.t.values()) == [1]

    def choicekey(self, k):
        return all(sy in self.choice for m, c in k for sy, e in m)

    def groupjoin(self, states, fxs, valss):
        """states with identical control; returns the merged list"""
        if len(states) == 1:
            return states
        allf = set().union(*[set(f) for f in fxs])
        U = sorted(j for j in allf if len({f.get(j, "?") for f in fxs}) > 1)
        if not U:
            return states[:1] if all(self.same(valss[0], v) for v in valss) else states
        dsym = {self.ds[j]: j for j in U if j in self.ds}
        newvals = []
        for ci in range(len(valss[0])):
            terms = {}
            for si, vs in enumerate(valss):
                v = vs[ci][2]
                if not v.d.is_const() or v.d.cval() != 1:
                    return states
                row = {}
                for mo, c in v.n.t.items():
                    dd = [sy for sy, e in mo if sy in dsym]
                    if len(dd) > 1 or any(e != 1 for sy, e in mo if sy in dsym):
                        return states
                    base = tuple((sy, e) for sy, e in mo if sy not in dsym)
                    row.setdefault(base, {})[dsym[dd[0]] if dd else None] = c
                for base in row:
                    terms.setdefault(base, {})
                terms_row = row
                for base in list(terms):
                    terms[base][si] = row.get(base, {})
            form = Poly({})
            for base, rows in terms.items():
                eqs = []
                for si in range(len(states)):
                    row = rows.get(si, {})
                    eq = {None: 1}
                    for j in U:
                        if j in fxs[si]:
                            d = self.choice[j][fxs[si][j]]
                            if d:
                                eq[j] = d
                            if row.get(j):
                                return states
                        else:
                            eqs.append(({j: 1}, row.get(j, 0)))
                    eqs.append((eq, row.get(None, 0)))
                sol = solve(eqs, [None] + U)
                if sol is None:
                    return states
                for j, c in sol.items():
                    if c.denominator != 1:
                        return states
                    if c:
                        mo = base if j is None else mmul_(base, self.ds[j])
                        form = form + Poly({mo: int(c)})
            newvals.append(form)
        s = states[0]
        for (oid, off, old), v in zip(valss[0], newvals):
            o = s.w(oid)
            o.cells[off] = (o.cells[off][0], Rat(v))
        for k in [k for k in s.bounds if any(sy in U for m, c in k for sy, e in m)]:
            del s.bounds[k]
        s.known = {}
        s.facts = []
        s.tags["forgot"] = frozenset(s.tags.get("forgot", frozenset())) | frozenset(U)
        self.joined += len(states) - 1
        return [s]

    def same(self, a, b):
        return all(x[2] == y[2] for x, y in zip(a, b))

    def run(self, s, fname, args):
        m = self.m
        m.push(s, fname, args)
        m.enter_block(s)
        level = {0: [s]}
        out = []
        m.parking = True
        old = m.goto
        live = self

        def goto(st, f, b):
            back = b <= f.blk
            f.prev, f.blk, f.ip = f.blk, b, 0
            m.enter_block(st)
            if back:
                st.ended = "park"
        m.goto = goto
        n = 0
        try:
            lv = 0
            cur = [s]
            while cur:
                parked = []
                while cur:
                    st = cur.pop()
                    while st.ended is None:
                        try:
                            m.step(st)
                            n += 1
                            if n > m.MAXSTEP:
                                raise Undecided("step budget exceeded at %s" % m.where(st))
                        except NeedFork as nf:
                            fg = st.tags.get("forgot")
                            if fg and len(nf.cond) > 1 and isinstance(nf.cond[1], Poly) and (nf.cond[1].syms() & fg):
                                raise Undecided("a merged choice is inspected again at %s" % m.where(st))
                            other = st.clone()
                            a = m.assume(st, nf.cond, True)
                            b = m.assume(other, nf.cond, False)
                            if b:
                                cur.append(other)
                                if len(cur) > 6000:
                                    raise Undecided("too many partitions at %s" % m.where(st))
                            if not a:
                                st.ended = "infeasible"
                    if st.ended == "park":
                        st.ended = None
                        parked.append(st)
                    elif st.ended != "infeasible":
                        out.append(st)
                groups = {}
                for st in parked:
                    fx = self.prepare(st)
                    k, vals = self.key(st, fx)
                    groups.setdefault(k, []).append((st, fx, vals))
                for k, g in groups.items():
                    cur += self.groupjoin([x[0] for x in g], [x[1] for x in g], [x[2] for x in g])
                self.maxwidth = max(self.maxwidth, len(cur))
                self.nstates += len(cur)
                if len(cur) > 3000:
                    raise Undecided("too many partitions at a loop head")
                lv += 1
        finally:
            m.goto = old
        return out


def mmul_(base, sy):
    return tuple(sorted(base + ((sy, 1),)))


def solve(eqs, vars):
    """exact linear system; None when inconsistent or underdetermined"""
    rows = [({k: Fraction(v) for k, v in e.items()}, Fraction(r)) for e, r in eqs]
    piv = {}
    for e, r in rows:
        e = dict(e)
        for p, (pe, pr) in piv.items():
            c = e.pop(p, None)
            if c:
                for k, v in pe.items():
                    e[k] = e.get(k, 0) - c * v
                    if not e[k]:
                        del e[k]
                r -= c * pr
        e = {k: v for k, v in e.items() if v}
        if not e:
            if r:
                return None
            continue
        p = next(iter(e))
        c = e.pop(p)
        pe = {k: v / c for k, v in e.items()}
        pr = r / c
        for q in list(piv):
            qe, qr = piv[q]
            c2 = qe.pop(p, None)
            if c2:
                for k, v in pe.items():
                    qe[k] = qe.get(k, 0) - c2 * v
                    if not qe[k]:
                        del qe[k]
                qr -= c2 * pr
            piv[q] = (qe, qr)
        piv[p] = (pe, pr)
    sol = {}
    for v in vars:
        if v not in piv or piv[v][0]:
            return None
        sol[v] = piv[v][1]
    return sol
