"""Partition-merging abstract interpreter for table-driven parallel code.

Partitions split on comparisons of bounded integer forms and on table indexes; at loop heads the partitions that
together cover all cases are merged exactly: every differing cell becomes the combination of the branch values
weighted by step functions [q >= t].  Parallel regions (OpenMP loops, pool tasks) are analysed task by task with an
effect log that is checked for conflicts between tasks that may run at the same time."""
import random, re
from poly import Poly, P, Rat, SY
from absint import *
from karr import Live

STEPS = {}      # symbol -> (q, t): the step function [q >= t]
STEPOF = {}     # symbol -> q.key()


def step(q, t):
    if len(q.t) == 1:
        (m, c), = q.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and SY.lo[m[0][0]] == 0 and SY.hi[m[0][0]] == 1:
            return q if t == 1 else P(1) if t <= 0 else P(0)
    key = ("step", q.key(), t)
    if key not in SY.memo:
        sy = SY.new("[%s#%d>=%d]" % (repr(q)[:24], len(SY.memo), t), 0, 1)
        SY.memo[key] = sy
        STEPS[sy] = (q, t)
        STEPOF[sy] = q.key()
    return Poly({((SY.memo[key], 1),): 1})


def sred(p):
    """canonical reduction of step products: b*b = b, [q>=s][q>=t] = [q>=max]"""
    r = {}
    for m, c in p.t.items():
        if len(m) > 1 or (m and m[0][1] > 1):
            best = {}
            rest = []
            for sy, e in m:
                if sy in STEPS:
                    k = STEPOF[sy]
                    o = best.get(k)
                    if o is None or STEPS[sy][1] > STEPS[o][1]:
                        best[k] = sy
                else:
                    rest.append((sy, 1 if SY.lo[sy] == 0 and SY.hi[sy] == 1 else e))
            m = tuple(sorted(rest + [(sy, 1) for sy in best.values()]))
        v = r.get(m, 0) + c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return Poly(r)


def evaluate(p, val, memo):
    """value of an integer form under an assignment of the input bits (symbol -> int)"""
    tot = 0
    for m, c in p.t.items():
        x = c
        for sy, e in m:
            if sy in val:
                v = val[sy]
            elif sy in STEPS:
                if sy not in memo:
                    q, t = STEPS[sy]
                    memo[sy] = int(evaluate(q, val, memo) >= t)
                v = memo[sy]
            else:
                raise KeyError(SY.names[sy])
            x *= v ** e
            if not x:
                break
        tot += x
    return tot


def support(q, memo):
    """input bits a form depends on"""
    out = set()
    for sy in q.syms():
        if sy in STEPS:
            if sy not in memo:
                memo[sy] = support(STEPS[sy][0], memo)
            out |= memo[sy]
        elif SY.lo[sy] == 0 and SY.hi[sy] == 1:
            out.add(sy)
    return out


def realize(entries, tries=4000):
    """an assignment of input bits meeting all interval constraints (local search), or None"""
    rnd = random.Random(7)
    memo = {}
    sup = [sorted(support(q, memo)) for q, lo, hi in entries]
    val = {b: 0 for s in sup for b in s}
    for i in range(tries):
        ev = {}
        badi = []
        for k, (q, lo, hi) in enumerate(entries):
            try:
                x = evaluate(q, val, ev)
            except KeyError:
                return None
            if (lo is not None and x < lo) or (hi is not None and x > hi):
                badi.append(k)
        if not badi:
            return val
        k = rnd.choice(badi)
        if not sup[k]:
            return None
        if i % 500 == 499:
            for b in val:
                val[b] = rnd.getrandbits(1)
        else:
            b = rnd.choice(sup[k])
            val[b] ^= 1
    return None


class SelMachine(Machine):
    IDX = 1100

    def __init__(self, mod):
        Machine.__init__(self, mod)
        self.log = {}
        self.conc = set()
        self.rid = 0
        self.events = []
        self.pool_threads = 1
        self.omp_max = 1
        self.on_access = self.logaccess
        self.regions = 0
        self.types = {}

    # ----- path bookkeeping
    def assume(self, s, cond, truth):
        r = Machine.assume(self, s, cond, truth)
        if cond[0] == "ge0":
            k, q, c = norm_key(cond[1])
            # k*q + c >= 0
            path = s.tags.setdefault("path", {})
            _, lo, hi = path.get(q.key(), (q, None, None))
            if k > 0:
                t = -((c) // k)                     # q >= ceil(-c/k)
                if truth:
                    lo = t if lo is None else max(lo, t)
                else:
                    hi = t - 1 if hi is None else min(hi, t - 1)
            else:
                t = c // (-k)                       # q <= floor(c/-k)
                if truth:
                    hi = t if hi is None else min(hi, t)
                else:
                    lo = t + 1 if lo is None else max(lo, t + 1)
            path[q.key()] = (q, lo, hi)
        return r

    def offset(self, s, p):
        if isinstance(p.off, int):
            return p.off
        r = Machine.offset(self, s, p)
        if r is None and isinstance(p.off, Poly):
            k, q, c = norm_key(p.off)
            lo, hi = self.rng(s, q)
            if lo is not None and hi is not None and hi - lo <= self.IDX:
                if lo == hi:
                    return k * lo + c
                raise NeedFork(("ge0", q - (lo + hi + 1) // 2))
        return r

    def rng(self, s, p):
        lo, hi = Machine.rng(self, s, p)
        if s is not None and isinstance(p, Poly) and len(p.t) > 1:
            for q, a, b in s.tags.get("path", {}).values():
                if len(q.t) > 1 and len(q.t) < len(p.t):
                    l = q.lead()
                    c = p.t.get(l)
                    if c is None or c % q.t[l]:
                        continue
                    c //= q.t[l]
                    if any(p.t.get(m) != c * x for m, x in q.t.items()):
                        continue
                    ql, qh = Machine.rng(self, s, q)
                    rl, rh = Machine.rng(self, s, p - q.scale(c))
                    if None in (ql, qh, rl, rh):
                        continue
                    x, y = sorted((c * ql, c * qh))
                    lo = x + rl if lo is None else max(lo, x + rl)
                    hi = y + rh if hi is None else min(hi, y + rh)
        return lo, hi

    def real(self, s):
        """some input actually reaches this partition (otherwise nothing is reported on it)"""
        e = list(s.tags.get("path", {}).values())
        return not e or realize(e) is not None

    def access(self, s, p, size, write):
        n = len(self.oob)
        r = Machine.access(self, s, p, size, write)
        if len(self.oob) > n and not self.real(s):
            del self.oob[n:]
            self.unreal += 1
        return r

    def load(self, s, p, size, ty="i64"):
        n = len(self.uninit)
        r = Machine.load(self, s, p, size, ty)
        if len(self.uninit) > n and not self.real(s):
            del self.uninit[n:]
            self.unreal += 1
        return r
    unreal = 0

    # ----- effects of concurrent tasks
    def logaccess(self, s, p, size, write):
        th = s.tags.get("thr")
        pend = s.tags.get("pend")
        if th is None and not pend:
            return
        if not isinstance(size, int) or not size:
            return
        off = self.offset(s, p)
        if off is None:
            return
        labels = [th] if th is not None else [("main", r) for _, r, _ in pend]
        for l in labels:
            if p.obj < self.nid0.get(l[1], 0):
                o = s.mem.get(p.obj)
                if o is not None and (o.kind != "const" or write):
                    d = self.log.setdefault(l, {})
                    k = (p.obj, off, off + size, write)
                    if k not in d:
                        d[k] = (self.where(s), o.name)

    nid0 = {}

    def conflicts(self):
        out = []
        for a, b in sorted(self.conc, key=repr):
            A, B = self.log.get(a, {}), self.log.get(b, {})
            byobj = {}
            for k in B:
                byobj.setdefault(k[0], []).append(k)
            done = False
            for k in A:
                for k2 in byobj.get(k[0], ()):
                    if (k[3] or k2[3]) and k[1] < k2[2] and k2[1] < k[2]:
                        out.append((A[k][0], B[k2][0], A[k][1], "write" if k[3] else "read", "write" if k2[3] else "read"))
                        done = True
                        break
                if done:
                    break
        return out

    def parallel(self, s, tasks, done):
        """run the tasks (callables pushing a frame) one after another as concurrent activities"""
        self.rid += 1
        rid = self.rid
        self.nid0 = dict(self.nid0)
        for i in range(len(tasks)):
            self.nid0[(rid, i)] = s.nid
        labels = [("t", (rid, i)) for i in range(len(tasks))]
        for i in range(len(labels)):
            for j in range(i + 1, len(labels)):
                self.conc.add((labels[i], labels[j]))
        self.regions += 1
        saved = s.tags.get("thr")

        def nxt(m, st, v, i):
            if i == len(tasks):
                if saved is None:
                    st.tags.pop("thr", None)
                else:
                    st.tags["thr"] = saved
                st.tags.pop("tid", None)
                done(m, st)
                return
            st.tags["thr"] = labels[i]
            st.tags["tid"] = i
            tasks[i](m, st, ("cont", lambda mm, ss, vv, i=i: nxt(mm, ss, vv, i + 1)))
        nxt(self, s, None, 0)

    def pushf(self, s, fn, args, tag):
        self.push(s, fn, args)
        s.frames[-1].tag = tag
        self.enter_block(s)

    # ----- OpenMP
    def install_omp(self, maxthreads):
        self.omp_max = maxthreads

        def fork(m, s, ins, a):
            mt = a[2]
            if not isinstance(mt, Fn):
                raise Undecided("parallel region with an unknown body")
            T = s.tags.get("ompT", m.omp_max)
            if not isinstance(T, int) or T > 64:
                raise Undecided("number of threads not constant")
            n = len(m.mod["functions"][mt.name]["args"])
            sh = a[3:]
            assert n == 2 + len(sh), (n, len(sh))

            def task(i):
                def f(mm, st, tag):
                    o = st.alloc(4, "gtid", "alloca")
                    st.mem[o].cells[0] = (4, i)
                    mm.pushf(st, mt.name, [Ptr(o, 0), Ptr(o, 0)] + sh, tag)
                return f
            s.tags["teamT"] = T
            m.parallel(s, [task(i) for i in range(T)], lambda mm, st: mm.finish_call(st, ins, None))
            return CONTROL
        self.register(r"^__kmpc_fork_call", fork)

        def sinit(sz, signed):
            def f(m, s, ins, a):
                if a[2] not in (34, 33):
                    raise Undecided("loop schedule %s not modelled" % a[2])
                lo, hi = m.load(s, a[4], sz), m.load(s, a[5], sz)
                inc = a[7]
                if not (isinstance(lo, int) and isinstance(hi, int) and inc == 1):
                    raise Undecided("parallel loop bounds are not constant at %s" % m.where(s))
                w = sz * 8
                if signed:
                    lo, hi = sgn(lo, w), sgn(hi, w)
                trip = hi - lo + 1
                if hi < lo and (signed or hi != (lo - 1) % (1 << w)):
                    trip = 0
                T, i = s.tags["teamT"], s.tags["tid"]
                if a[2] == 33 and T > 1:
                    raise Undecided("chunked loop schedule not modelled")
                q, r = divmod(max(trip, 0), T)
                b = lo + i * q + min(i, r)
                e = b + q + (1 if i < r else 0) - 1
                if e < b:
                    b, e = hi + 1, hi            # empty share
                m.store(s, a[4], sz, b % (1 << w))
                m.store(s, a[5], sz, e % (1 << w))
                m.store(s, a[3], 4, int(i == T - 1))
                m.store(s, a[6], sz, max(trip, 1))
                return None
            return f
        for nm, sz, sg in (("4", 4, True), ("4u", 4, False), ("8", 8, True), ("8u", 8, False)):
            self.register(r"^__kmpc_for_static_init_%s$" % nm, sinit(sz, sg))
        self.register(r"^__kmpc_(for_static_fini|barrier|push_num_threads|flush)", lambda m, s, i, a: None)
        self.register(r"^__kmpc_global_thread_num", lambda m, s, i, a: s.tags.get("tid", 0))
        self.register(r"^omp_get_thread_num", lambda m, s, i, a: s.tags.get("tid", 0))
        self.register(r"^omp_get_num_threads", lambda m, s, i, a: s.tags["teamT"] if "tid" in s.tags else 1)
        self.register(r"^omp_get_max_threads", lambda m, s, i, a: s.tags.get("ompT", m.omp_max))

        def setn(m, s, ins, a):
            s.tags["ompT"] = a[0]
            return None
        self.register(r"^omp_set_num_threads", setn)

    # ----- thread pool
    def install_pool(self, T):
        self.register(r"^std::thread::hardware_concurrency", lambda m, s, i, a: T)
        self.register(r"^ThreadWorker::~ThreadWorker\(", lambda m, s, i, a: None)

        def ctor(m, s, ins, a):
            o = s.mem[a[0].obj]
            if isinstance(o.size, int):
                m.memset(s, a[0], 0, o.size - m.offset(s, a[0]))      # no task yet
            return None
        self.register(r"^ThreadWorker::ThreadWorker\(", ctor)
        self.register(r"^std::(recursive_)?mutex::(un)?lock|^std::condition_variable::notify|^std::mutex::try_lock", lambda m, s, i, a: 1)

        def assign(m, s, ins, a):
            w = s.tags.get("submitting")
            if w is not None:
                s.tags["taskobj"] = a[0]
            return NotImplemented
        self.register(r"std::function<void \(\)>::operator=", assign)

        def submit(m, s, ins, a):
            w = a[0]
            name = m.val(s, ins["callee"]).name
            pend = s.tags.get("pend", ())
            if any(p[0] == w for p in pend):
                m.events.append((m.where(s), "a task is handed to a worker that still has one"))
            m.rid += 1
            r = (m.rid, "pool")
            wh = m.where(s)

            def after(mm, st, v):
                st.tags.pop("submitting")
                t = st.tags.pop("taskobj", None)
                if t is None:
                    raise Undecided("submitted task not found at %s" % wh)
                mm.nid0 = dict(mm.nid0)
                mm.nid0[r] = st.nid
                pd = st.tags.get("pend", ())
                for _, q, _ in pd:
                    mm.conc.add((("t", q), ("t", r)))
                mm.conc.add((("main", r), ("t", r)))
                st.tags["pend"] = pd + ((w, r, t),)
                mm.regions += 1
                mm.finish_call(st, ins, None)
            s.tags["submitting"] = w
            m.push(s, name, a)
            s.frames[-1].tag = ("cont", after)
            m.enter_block(s)
            return CONTROL
        self.register(r"^(void )?ThreadWorker::submit<(?!.*operator\(\))", submit)

        def wait(m, s, ins, a):
            pend = s.tags.get("pend", ())
            mine = [p for p in pend if p[0] == a[0]]
            if not mine:
                return None
            fn = find_fn(m.mod, r"^std::function<void \(\)>::operator\(\)\(\) const")
            if not fn:
                raise Undecided("task invocation not found")
            w, r, t = mine[-1]
            rest = tuple(p for p in pend if p[0] != a[0])
            s.tags["pend"] = ()
            s.tags["thr"] = ("t", r)

            def after(mm, st, v):
                st.tags.pop("thr")
                st.tags["pend"] = rest
                drop = find_fn(mm.mod, r"^std::function<void \(\)>::operator=\((std::nullptr_t|decltype\(nullptr\))\)")
                if not drop:
                    mm.finish_call(st, ins, None)
                    return
                # the worker drops the finished task
                mm.push(st, drop[0], [t])
                st.frames[-1].tag = ("cont", lambda m2, s2, v2: m2.finish_call(s2, ins, None))
                mm.enter_block(st)
            m.push(s, fn[0], [t])
            s.frames[-1].tag = ("cont", after)
            m.enter_block(s)
            return CONTROL
        self.register(r"^ThreadWorker::wait\((?!.*operator\(\))", wait)

    # ----- merging
    def regw(self, fn, rid):
        d = self.types.get(fn)
        if d is None:
            d = {}
            fd = self.mod["functions"][fn]
            for a in fd["args"]:
                d[a[0]] = a[1]
            for b in fd["blocks"]:
                for i in b:
                    if "id" in i:
                        d[i["id"]] = i.get("ty", "")
            self.types[fn] = d
        t = d.get(rid, "")
        return int(t[1:]) if t[:1] == "i" and t[1:].isdigit() else None


class Merger:
    MAXW = 400
    why = ''

    def __init__(self, m):
        self.m = m
        self.live = Live(m.mod)
        self.merged = 0
        self.width = 0
        self.levels = 0
        self.nstates = 0

    def prune(self, s):
        for i, f in enumerate(s.frames):
            lv = self.live.live(f.fn, f.blk, f.ip, i < len(s.frames) - 1)
            f.env = {k: v for k, v in f.env.items() if k in lv}

    def key(self, s):
        fr = tuple((f.fn, f.blk, f.ip, tuple(f.allocas), tuple(sorted(f.env)), tuple(sorted((k, v.obj) for k, v in f.env.items() if isinstance(v, Ptr)))) for f in s.frames)
        obs = tuple((i, o.size if isinstance(o.size, int) else "?", o.kind, o.alive, o.pristine) for i, o in sorted(s.mem.items()) if o.kind != "const")
        tg = tuple(sorted((repr(k), vkey(v) if not callable(v) else id(v)) for k, v in s.tags.items() if k not in ("path", "nz", "exc")))
        return (fr, obs, tg)

    def ind(self, entries):
        r = P(1)
        for q, lo, hi in entries:
            x = (P(1) if lo is None else step(q, lo)) - (P(0) if hi is None else step(q, hi + 1))
            r = sred(r * x)
        return r

    def path(self, s):
        d = {("q",) + k: (q, lo, hi) for k, (q, lo, hi) in s.tags.get("path", {}).items()}
        return d

    def combine(self, vals, inds, w, states, oneof=None):
        """exact merge of values; returns (ok, value)"""
        k0 = vkey(vals[0])
        if all(vkey(v) == k0 for v in vals[1:]):
            return vals[0]
        if all(isinstance(v, Ptr) for v in vals):
            if len({v.obj for v in vals}) > 1:
                return None
            o = self.combine([v.off for v in vals], inds, 64, states)
            return None if o is None else Ptr(vals[0].obj, o)
        if all(isinstance(v, (Rat, int, Poly)) or isinstance(v, tuple) for v in vals) and any(isinstance(v, Rat) for v in vals):
            tot = P(0)
            for v, i in zip(vals, inds):
                v = Rat(0) if isinstance(v, (tuple, int)) and v in (0, ("Z",)) else v
                if not isinstance(v, Rat) or not (v.d.is_const() and v.d.cval() == 1):
                    return None
                tot = tot + i * v.n
            return Rat(sred(tot))
        if all(isinstance(v, (int, Poly, tuple)) for v in vals):
            vs = []
            lo = hi = None
            for v, st in zip(vals, states):
                if isinstance(v, tuple):
                    if v != ("Z",):
                        return None
                    v = 0
                if isinstance(v, int) and w and v >> (w - 1) & 1:
                    v -= 1 << w
                l, h = self.m.rng(st, P(v))
                if l is None or h is None:
                    lo = "?"
                elif lo != "?":
                    lo = l if lo is None else min(lo, l)
                    hi = h if hi is None else max(hi, h)
                vs.append(P(v))
            tot = P(0)
            for v, i in zip(vs, inds):
                tot = tot + i * v
            tot = sred(tot)
            self.hulls.append((tot, lo, hi))
            return simp(tot)
        if any(isinstance(v, Top) for v in vals):
            return Top("merged")
        return None

    def layout(self, states):
        """give every object the same cell boundaries in all states (zero fill and missing cells)"""
        for oid in list(states[0].mem):
            if states[0].mem[oid].kind == "const":
                continue
            objs = [s.mem[oid] for s in states]
            if all(o is objs[0] for o in objs):
                continue
            ks = [{c: v[0] for c, v in o.cells.items()} for o in objs]
            if all(k == ks[0] for k in ks):
                continue
            want = {}
            for o in objs:
                for c, (sz, v) in o.cells.items():
                    if not isinstance(v, tuple):
                        want[c] = sz
            for s in states:
                o = s.w(oid)
                for c, sz in want.items():
                    if c in o.cells and o.cells[c][0] == sz:
                        continue
                    for co, (cs, cv) in list(o.cells.items()):
                        if isinstance(cv, tuple) and co <= c and c + sz <= co + cs:
                            self.m.kill(s, o, c, sz)
                            o.cells[c] = (sz, ("Z",))
                            break
                    else:
                        if any(co < c + sz and c < co + cs for co, (cs, _) in o.cells.items()):
                            return False
                        o.cells[c] = (sz, Top("maybe uninitialised"))
            # leftovers of zero fill must agree
            ks = [{c: v[0] for c, v in o.cells.items() if not isinstance(v[1], tuple)} for o in [s.mem[oid] for s in states]]
            cover = set().union(*[set(k.items()) for k in ks])
            for s in states:
                o = s.mem[oid]
                for c, sz in cover:
                    if c not in o.cells or o.cells[c][0] != sz:
                        return False
            zs = [sorted((c, v[0]) for c, v in s.mem[oid].cells.items() if (c, v[0]) not in cover) for s in states]
            if any(z != zs[0] for z in zs):
                bnd = sorted({x for z in zs for c, sz in z for x in (c, c + sz)})
                for s in states:
                    o = s.w(oid)
                    for c, (sz, v) in list(o.cells.items()):
                        if (c, sz) not in cover:
                            del o.cells[c]
                            cut = [x for x in bnd if c < x < c + sz]
                            for a, b in zip([c] + cut, cut + [c + sz]):
                                o.cells[a] = (b - a, v)
                zs = [sorted((c, v[0]) for c, v in s.mem[oid].cells.items() if (c, v[0]) not in cover) for s in states]
                if any(z != zs[0] for z in zs):
                    return False
        return True

    def values(self, s):
        out = {}
        for i, f in enumerate(s.frames):
            for k, v in f.env.items():
                out[("r", i, k)] = v
        for oid, o in s.mem.items():
            if o.kind != "const":
                for c, (sz, v) in o.cells.items():
                    out[("m", oid, c, sz)] = v
        return out

    def merge_zero(self, states):
        """drop partitions 'x is zero' whose cells agree with the generic partition modulo x = 0"""
        groups = {}
        for s in states:
            p = {k: (lo, hi) for k, (q, lo, hi) in self.path(s).items()}
            groups.setdefault(tuple(sorted(p.items(), key=repr)), []).append(s)
        out = []
        for g in groups.values():
            g.sort(key=lambda s: len(s.zero))
            rep = g[0]
            keep = [rep]
            for s in g[1:]:
                if not self.layout([rep, s]):
                    keep.append(s)
                    continue
                a, b = self.values(rep), self.values(s)
                ok = set(a) == set(b)
                extra = [z for z in s.zero if not any(z == y for y in rep.zero)]
                if ok:
                    for k in a:
                        x, y = a[k], b[k]
                        if vkey(x) == vkey(y):
                            continue
                        x = Rat(0) if isinstance(x, tuple) else x
                        y = Rat(0) if isinstance(y, tuple) else y
                        if isinstance(x, Rat) and isinstance(y, Rat) and self.span(x.n - y.n, extra):
                            continue
                        ok = False
                        break
                if ok:
                    self.merged += 1
                    rep.known = {c: v for c, v in rep.known.items() if s.known.get(c) == v}
                    rep.tags["nz"] = ()
                else:
                    keep.append(s)
            out += keep
        return out

    def span(self, d, zs):
        for z in zs:
            if len(z.t) == 1:
                (m, c), = z.t.items()
                if len(m) == 1 and m[0][1] == 1 and c in (1, -1):
                    d = d.subst({m[0][0]: P(0)})
        for z in zs:
            if d.is_zero():
                return True
            m = next(iter(z.t))
            c = d.t.get(m, 0)
            if c % z.t[m] == 0 and c:
                d = d - z.scale(c // z.t[m])
        return sred(d).is_zero()

    def merge(self, states):
        if len(states) == 1:
            return states
        byzero = {}
        for s in states:
            byzero.setdefault(tuple(sorted(z.key() for z in s.zero)), []).append(s)
        if len(byzero) > 1:
            states = [x for g in byzero.values() for x in self.merge_same(g)]
            states = self.merge_zero(states)
            if len(states) == 1:
                return states
        return self.merge_same(states)

    def merge_same(self, states):
        if len(states) == 1:
            return states
        paths = [self.path(s) for s in states]
        common = {k for k in paths[0] if all(p.get(k) == paths[0][k] for p in paths[1:])}
        inds = [self.ind([v for k, v in p.items() if k not in common]) for p in paths]
        tot = P(0)
        for i in inds:
            tot = tot + i
        if not (sred(tot) - 1).is_zero():
            self.why = "paths do not cover: %r" % sred(tot)
            return states
        if any(sorted(z.key() for z in s.zero) != sorted(z.key() for z in states[0].zero) for s in states[1:]):
            return states
        if not self.layout(states):
            self.why = "layout"
            return states
        self.hulls = []
        vs = [self.values(s) for s in states]
        if any(set(v) != set(vs[0]) for v in vs):
            self.why = "cells"
            return states
        new = {}
        for k in vs[0]:
            w = self.m.regw(states[0].frames[k[1]].fn, k[2]) if k[0] == "r" else 8 * k[3]
            r = self.combine([v[k] for v in vs], inds, w, states)
            if r is None:
                self.why = "%s: %r" % (k, [v[k] for v in vs][:3])
                return states
            new[k] = r
        s = states[0]
        for k, v in new.items():
            if k[0] == "r":
                s.frames[k[1]].env[k[2]] = v
            elif s.mem[k[1]].cells[k[2]][1] is not v:
                s.w(k[1]).cells[k[2]] = (k[3], v)
        # bounds: keep what all agree on, plus hulls of forked forms
        keep = {}
        for k, b in s.bounds.items():
            bs = [t.bounds.get(k) for t in states]
            if all(x is not None for x in bs):
                lo = None if any(x[0] is None for x in bs) else min(x[0] for x in bs)
                hi = None if any(x[1] is None for x in bs) else max(x[1] for x in bs)
                keep[k] = (lo, hi)
        s.bounds = keep
        for p, lo, hi in self.hulls:
            if lo != "?" and p.t and not p.is_const():
                self.m.add_bound(s, p, lo, hi)
        s.tags["path"] = {k[1:]: s.tags["path"][k[1:]] for k in common if k[0] == "q"}
        s.known = {c: v for c, v in s.known.items() if all(t.known.get(c) == v for t in states[1:])}
        s.facts = []
        s.nid = max(t.nid for t in states)
        s.tags["nz"] = ()
        self.merged += len(states) - 1
        return [s]

    def mergeall(self, states):
        groups = {}
        for s in states:
            self.prune(s)
            groups.setdefault(self.key(s), []).append(s)
        out = []
        for g in groups.values():
            out += self.merge(g)
        return out

    def run(self, s, fname, args, maxstep=30000000):
        m = self.m
        m.push(s, fname, args)
        m.enter_block(s)
        out = []
        old = m.goto

        def goto(st, f, b):
            back = b <= f.blk
            f.prev, f.blk, f.ip = f.blk, b, 0
            m.enter_block(st)
            if back:
                st.ended = "park"
        m.goto = goto
        n = 0
        cur = [s]
        try:
            while cur:
                parked = []
                while cur:
                    st = cur.pop()
                    while st.ended is None:
                        try:
                            m.step(st)
                            n += 1
                            if n > maxstep:
                                raise Undecided("step budget exceeded at %s" % m.where(st))
                            if st.ended == "park" and not cur and not parked:
                                st.ended = None         # alone: nothing to merge with
                        except NeedFork as nf:
                            other = st.clone()
                            a = m.assume(st, nf.cond, True)
                            b = m.assume(other, nf.cond, False)
                            if b:
                                cur.append(other)
                            if not a:
                                st.ended = "infeasible"
                            if len(cur) > 5000:
                                raise Undecided("too many partitions at %s" % m.where(st))
                    if st.ended == "park":
                        st.ended = None
                        parked.append(st)
                    elif st.ended != "infeasible":
                        out.append(st)
                cur = self.mergeall(parked) if len(parked) > 1 else parked
                self.width = max(self.width, len(cur))
                self.nstates += len(cur)
                self.levels += 1
                if len(cur) > self.MAXW:
                    raise Undecided("%d partitions at a loop head cannot be merged at %s (%s; %d kinds)" % (len(cur), m.where(cur[0]), self.why, len({self.key(x) for x in cur})))
        finally:
            m.goto = old
            m.nsteps += n
        rets = [x for x in out if x.ended == "ret"]
        rest = [x for x in out if x.ended != "ret"]
        if len(rets) > 1:
            rets = self.mergeall(rets)
        return rets + rest


def normal(m, s, d):
    """eliminate the first step of every bounded form: [q>=L+1] = q - L - sum of the later steps"""
    for _ in range(2000):
        best = None
        for mo in d.t:
            for sy, e in mo:
                if sy in STEPS and (best is None or sy > best):
                    q, t = STEPS[sy]
                    lo, hi = m.rng(s, q)
                    if lo is not None and hi is not None and (t <= lo or t > hi or t == lo + 1):
                        best = sy
        if best is None:
            return d
        q, t = STEPS[best]
        lo, hi = m.rng(s, q)
        if t <= lo:
            r = P(1)
        elif t > hi:
            r = P(0)
        else:
            r = q - lo
            for u in range(lo + 2, hi + 1):
                r = r - step(q, u)
        d = sred(d.subst({best: r}))
    return d


def witness(d, bits, seed=1, tries=300):
    """an assignment of the input bits under which the difference is nonzero (d: form over bits and base symbols)"""
    bases = {}
    for mo, c in d.t.items():
        b = tuple(x for x in mo if x[0] not in bits and x[0] not in STEPS)
        r = tuple(x for x in mo if x not in b)
        bases.setdefault(b, {})[r] = c
    rnd = random.Random(seed)
    bl = sorted(bits)

    def cands():
        yield {b: 0 for b in bl}
        yield {b: 1 for b in bl}
        for i in range(tries):
            p = rnd.choice((0.5, 0.5, 0.9, 0.1))
            yield {b: int(rnd.random() < p) for b in bl}
        for b in bl:
            yield {x: int(x == b) for x in bl}
        for b in bl:
            yield {x: int(x != b) for x in bl}
    for v in cands():
        memo = {}
        for b, form in bases.items():
            try:
                x = evaluate(Poly(form), v, memo)
            except KeyError:
                return None
            if x:
                return v, b, x
    return None
