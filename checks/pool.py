"""The thread pool: worker hand-over protocol (lock and condition discipline) and division of parallel work."""
import re
from absint import *
from sel import *
from naf import run_ctors
from report import REPO, ROOT


def load(*extra):
    return compile_ir(ROOT + "/drivers/pool_driver.cpp", ["-I" + ROOT + "/drivers/stubs", "-I" + REPO + "/c"] + list(extra))


class WM(Machine):
    """typestate of the worker object: mutexes held, accesses, waits, notifications, task invocations"""
    MAXSTEP = 200000

    def __init__(self, mod):
        Machine.__init__(self, mod)
        self.obj = None
        self.acc = []
        self.role = "ctor"
        self.isatom = False
        self.bad = []
        self.on_access = self.sawacc
        R = self.register
        R(r"^pthread_mutex_(lock|trylock|timedlock)$", self.lock)
        R(r"^std::mutex::(try_)?lock", self.lock)
        R(r"^pthread_mutex_unlock$|^std::mutex::unlock", self.unlock)
        R(r"^std::condition_variable::(condition_variable|~condition_variable)\(", lambda m, s, i, a: None)
        R(r"^std::condition_variable::notify_(one|all)\(", self.notify)
        R(r"^std::condition_variable::wait\(std::unique_lock<std::mutex>&\)", self.wait)
        R(r"^std::thread::_M_start_thread", self.start)
        R(r"^std::thread::(join|detach)\(", self.join)
        R(r"^std::thread::_State::~_State\(", lambda m, s, i, a: None)
        R(r"^Fo::operator\(\)\(\) const", self.invoke)
        self.hook = None

    def off(self, s, p):
        if isinstance(p, Ptr) and p.obj == self.obj:
            return self.offset(s, p)
        return None

    def i_load(self, s, f, ins):
        self.isatom = bool(ins.get("atomic"))
        try:
            return Machine.i_load(self, s, f, ins)
        finally:
            self.isatom = False

    def i_store(self, s, f, ins):
        self.isatom = bool(ins.get("atomic"))
        try:
            return Machine.i_store(self, s, f, ins)
        finally:
            self.isatom = False

    def i_atomicrmw(self, s, f, ins):
        raise Undecided("atomic read-modify-write in the worker protocol")
    i_cmpxchg = i_atomicrmw

    def sawacc(self, s, p, size, write):
        o = self.off(s, p)
        if o is None or not isinstance(size, int) or s.tags.get("joined"):
            return
        held = s.tags.get("held", frozenset())
        if not s.tags.get("quiet"):
            self.acc.append((self.role, o, o + size, write, self.isatom, held, bool(s.tags.get("pending")), self.where(s), bool(s.tags.get("started"))))
        if write:
            self.ev(s, "write", o, size, held, self.isatom, self.where(s))

    def ev(self, s, *e):
        s.tags["tr"] = s.tags.get("tr", ()) + (e,)

    def lock(self, s, s2, ins, a):
        if self.hook:
            self.choose(s2)
        o = self.off(s2, a[0])
        if o is None:
            raise Undecided("lock of a mutex outside the worker object")
        h = s2.tags.get("held", frozenset())
        if o in h:
            self.bad.append((self.where(s2), "the mutex is locked twice by one thread"))
        s2.tags["held"] = h | {o}
        self.ev(s2, "lock", o)
        if self.hook:
            self.finish_call(s2, ins, 0)
            self.hook(s2, "lock", None)
            return CONTROL
        return 0

    def unlock(self, s, s2, ins, a):
        o = self.off(s2, a[0])
        h = s2.tags.get("held", frozenset())
        if o not in h:
            self.bad.append((self.where(s2), "the mutex is released without being held"))
        if self.hook:
            self.hook(s2, "unlock", None)
        s2.tags["held"] = h - {o}
        self.ev(s2, "unlock", o)
        return 0

    def notify(self, s, s2, ins, a):
        d = self.mod["functions"][self.val(s2, ins["callee"]).name]["dem"]
        self.ev(s2, "notify", self.off(s2, a[0]), "all" if "notify_all" in d else "one", self.where(s2))
        return None

    def wait(self, s, s2, ins, a):
        # unique_lock holds the mutex pointer in its first word
        mu = None
        for c, (sz, v) in s2.mem[a[1].obj].cells.items():
            if isinstance(v, Ptr) and v.obj == self.obj:
                mu = self.offset(s2, v)
        if mu is None:
            raise Undecided("the lock given to a wait is not known")
        if self.hook:
            self.choose(s2)
        if mu not in s2.tags.get("held", frozenset()):
            self.bad.append((self.where(s2), "a wait is entered without holding its mutex"))
        if not self.hook and s2.tags.get("spurious") and not s2.tags.get("wakeups"):
            self.nd(s2, "spurious", 0)
        self.ev(s2, "wait", self.off(s2, a[0]), mu, self.where(s2))
        if self.hook:
            self.finish_call(s2, ins, None)
            self.hook(s2, "wait", (self.off(s2, a[0]), mu))
        elif s2.tags.get("wakeups", 0) < 1 and s2.tags.get("spurious") and self.nd(s2, "spurious", s2.tags.get("wakeups", 0)):
            s2.tags["wakeups"] = 1
            self.finish_call(s2, ins, None)
        else:
            s2.ended = "blocked"
        return CONTROL

    def start(self, s, s2, ins, a):
        sp = self.load(s2, a[1], 8)
        self.store(s2, a[0], 8, 1)
        s2.tags["started"] = True
        s2.tags["thread"] = sp
        self.ev(s2, "start")
        return None

    def join(self, s, s2, ins, a):
        d = self.mod["functions"][self.val(s2, ins["callee"]).name]["dem"]
        self.ev(s2, "join" if "join" in d else "detach", self.where(s2))
        if "join" in d:
            s2.tags["atjoin"] = dict(s2.mem[self.obj].cells)
            s2.tags["joined"] = True
            if s2.tags.get("held"):
                self.bad.append((self.where(s2), "the thread is joined while its mutex is held"))
        self.store(s2, a[0], 8, 0)
        return None

    def invoke(self, s, s2, ins, a):
        v = self.load(s2, a[0], 8)
        self.ev(s2, "invoke", v, self.where(s2))
        if self.hook:
            self.hook(s2, "invoke", v)
        return None


class Proto:
    def __init__(self, mod):
        m = self.m = WM(mod)
        s = run_ctors(m, m.new_state())
        r = m.run(s, "d_size", [])
        s = r[0]
        s.ended = None
        self.base = s
        m.obj = s.alloc(r[0].result, "worker", "heap")
        self.mark = [s.alloc(8, "mark%d" % i, "heap") for i in range(3)]
        self.fo = []
        for k in self.mark:
            o = s.alloc(8, "functor", "heap")
            s.mem[o].cells[0] = (8, Ptr(k, 0))
            self.fo.append(o)

    def method(self, s, fn, args, role, quiet=False):
        """all outcomes of a client method started in state s"""
        m = self.m
        st = s.clone()
        st.frames = []
        st.ended = None
        st.tags = {k: v for k, v in st.tags.items() if k not in ("tr", "held", "joined", "atjoin", "pending")}
        if quiet:
            st.tags["quiet"] = True
        hook, m.hook, old, m.role = m.hook, None, m.role, role
        try:
            out = m.run(st, fn, [Ptr(m.obj, 0)] + args)
        finally:
            m.hook, m.role = hook, old
        for o in out:
            o.tags.pop("quiet", None)
        return out

    def done(self, s):
        """whether waiting for the worker returns at once in this state"""
        out = self.method(s, "d_wait", [], "wait", True)
        b = {o.ended for o in out}
        if b == {"ret"}:
            return True
        if b == {"blocked"}:
            return False
        raise Undecided("waiting has outcomes %s" % b)

    def put(self, s, cells):
        """give the shared object the contents another thread left in it"""
        s.w(self.m.obj).cells = dict(cells)


def trace(o):
    return o.tags.get("tr", ())


def wakes(tr, cv, mu, upto=None):
    """why a blocked waiter (cv, mutex) would miss this method's change, or None"""
    last = None
    for i, e in enumerate(tr):
        if e[0] in ("join", "detach"):
            tr = tr[:i]
            break
    for i, e in enumerate(tr):
        if e[0] == "write" and mu not in e[3]:
            return e[5], "the state another thread waits for is changed without holding the waiter's mutex, so the wakeup can be lost"
        if e[0] == "write":
            last = i
    if last is None:
        return None
    if not any(e[0] == "notify" and e[1] == cv for e in tr[last + 1:]):
        return tr[last][5], "the state another thread waits for is changed but that thread is not notified"
    return None


def reaches(s, obj, mark):
    """whether the object still leads to the mark"""
    seen, todo = set(), [obj]
    while todo:
        o = todo.pop()
        if o in seen or o not in s.mem:
            continue
        seen.add(o)
        for _, v in s.mem[o].cells.values():
            if isinstance(v, Ptr):
                if v.obj == mark:
                    return True
                todo.append(v.obj)
    return False


def clients(check, p, busy, wcv, w):
    """a second client submits while the first one's task has not run yet"""
    m = p.m
    p.shared, p.subcv = set(), set()
    for o in p.method(busy, "d_submit", [Ptr(p.fo[1], 0)], "submit", True):
        if o.ended == "blocked":
            e = [e for e in trace(o) if e[0] == "wait"][-1]
            before = [x for x in trace(o) if x[0] == "write"]
            if before or not reaches(o, m.obj, p.mark[0]):
                check.bad("clients", "second submission", before[-1][5] if before else w, "a submission changes the worker before the pending task has run")
                continue
            check.ok("clients", "second submission")
            p.subcv.add((e[1], e[2]))
            if (e[1], e[2]) in wcv:
                p.shared.add((e[1], e[2]))
        elif o.ended == "ret" and reaches(o, m.obj, p.mark[0]) and reaches(o, m.obj, p.mark[1]):
            check.undecided("clients", "second submission", "the worker keeps several tasks")
        elif o.ended == "ret":
            wr = [x for x in trace(o) if x[0] == "write"]
            check.bad("clients", "second submission", wr[-1][5] if wr else w, "a task submitted by another client replaces one that has not run yet, so that one never runs")
        else:
            check.undecided("clients", "second submission", "outcome %s" % o.ended)


def worker(check, tier):
    check.rule("clients", "a submission waits while another client's task is pending, and a finished task wakes everyone who waits", 1)
    check.rule("start", "the thread is started after every field it uses is initialised", 1)
    check.rule("handover", "a submitted task runs exactly once, before waiting for it returns; the thread ends only when asked to", 3)
    check.rule("wakeup", "every change a sleeping thread waits for is made under its mutex and followed by a notification of its condition", 3)
    check.rule("lockset", "no two threads touch the same field without a common lock, atomicity or ownership hand-over", 1)
    check.rule("lock-balance", "mutexes are taken once and released on every path", 4)
    check.rule("teardown", "destruction asks the thread to stop, wakes it and joins it before the fields go away", 1)
    w = "c/misc.hpp ThreadWorker"
    p = Proto(load())
    m = p.m
    s0 = p.method(p.base, "d_ctor", [], "ctor")
    if len(s0) != 1 or s0[0].ended != "ret" or "thread" not in s0[0].tags:
        check.undecided("start", "constructor", "outcomes %s" % [(x.ended) for x in s0])
        return
    s0 = s0[0]
    idle = p.base.clone()
    idle.mem = {k: v for k, v in s0.mem.items()}
    idle.tags = dict(s0.tags)
    idle.nid = s0.nid
    tr = trace(s0)
    st = [i for i, e in enumerate(tr) if e[0] == "start"]
    late = [e for e in tr[st[0]:] if e[0] == "write"]
    tp = idle.tags["thread"]
    idle.tags.pop("tr", None)
    held = idle.tags.pop("held", frozenset())
    check.check("lock-balance", "construction", not held, w, "the constructor keeps a mutex")

    def balanced(key, o):
        h = o.tags.get("held", frozenset())
        if o.ended == "ret":
            check.check("lock-balance", key, not h, w, "%s returns with the mutex held" % key)
        return not h

    # --- client methods in the idle state
    if not p.done(idle):
        check.bad("handover", "idle wait", w, "waiting for a worker that has no task blocks")
    else:
        check.ok("handover", "idle wait")
    subs = p.method(idle, "d_submit", [Ptr(p.fo[0], 0)], "submit")
    if len(subs) != 1 or subs[0].ended != "ret":
        check.undecided("handover", "submit", "outcomes %s" % [x.ended for x in subs])
        return
    balanced("submit", subs[0])
    if p.done(subs[0]):
        check.bad("handover", "wait after submit", w, "waiting returns although the submitted task has not run")
    else:
        check.ok("handover", "wait after submit")
    for o in p.method(idle, "d_wait", [], "wait"):
        balanced("wait", o)
    sp = subs[0].clone()
    sp.tags = dict(subs[0].tags, spurious=True)
    for o in p.method(sp, "d_wait", [], "wait"):
        check.check("handover", "wait with a spurious wakeup", o.ended == "blocked", w, "a spurious wakeup makes waiting return although the task has not run")
    blockedw = [o for o in p.method(subs[0], "d_wait", [], "wait") if o.ended == "blocked"]
    wcv = {(e[1], e[2]) for o in blockedw for e in trace(o) if e[0] == "wait"}
    clients(check, p, subs[0], wcv, w)
    dts = p.method(idle, "d_dtor", [], "dtor")
    for o in dts:
        balanced("destructor", o)
        kinds = [e[0] for e in trace(o)]
        if o.ended != "ret":
            check.bad("teardown", "join", o.tags.get("abort", ("", w))[1], "the destructor does not end normally (%s): a running thread is destroyed" % o.ended)
        elif kinds.count("join") != 1:
            check.bad("teardown", "join", w, "the destructor does not join the thread")
        else:
            check.ok("teardown", "join")
    stops = [o for o in dts if "atjoin" in o.tags]

    # --- the thread itself, with the other side's operations between its critical sections
    vt = m.load(idle, tp, 8)
    runfn = None
    fns = find_fn(m.mod, r"^std::thread::_State_impl<.*>::_M_run\(\)")
    if len(fns) != 1:
        check.undecided("handover", "thread body", "%d bodies" % len(fns))
        return
    runfn = fns[0]
    fails = []

    def fail(rule, key, wh, what):
        fails.append((rule, key, wh, what))
    blocks = {}
    flags = {"ran": 0, "exit": 0, "paths": 0}

    def choose(s):
        """decide (by case split, before anything is changed) what the client does next"""
        s.tags.pop("choice", None)
        if s.tags.get("stopping") or not p.done(s):
            return
        k = s.tags.get("k", 0)
        if s.tags.get("nsub", 0) < 2 and m.nd(s, "client", "submits", k):
            s.tags["choice"] = "submit"
        elif m.nd(s, "client", "destroys", k):
            s.tags["choice"] = "destroy"
    m.choose = choose

    def interfere(s):
        """the client may act while the worker does not hold the mutex"""
        s.tags["k"] = s.tags.get("k", 0) + 1
        act = s.tags.pop("choice", None)
        if act == "submit":
            i = s.tags.get("nsub", 0)
            r = p.method(s, "d_submit", [Ptr(p.fo[i], 0)], "submit", True)
            if len(r) != 1 or r[0].ended != "ret":
                raise Undecided("submit has %d outcomes" % len(r))
            s.mem, s.nid = r[0].mem, max(s.nid, r[0].nid)
            s.tags["nsub"] = i + 1
            s.tags["job"] = i
            s.tags["ran"] = 0
        elif act == "destroy":
            r = [x for x in p.method(s, "d_dtor", [], "dtor", True) if "atjoin" in x.tags]
            if len(r) != 1:
                raise Undecided("destructor has %d outcomes" % len(r))
            p.put(s, r[0].tags["atjoin"])
            s.tags["stopping"] = True

    def settle(s):
        """the worker publishes the object: a finished job must have run"""
        if s.tags.get("job") is not None and p.done(s):
            if s.tags.get("ran", 0) != 1:
                fail("handover", "task runs before it is reported finished", m.where(s), "the task is reported finished before it was run")
            s.tags["job"] = None
            s.tags["owe"] = True
            flags["ran"] += 1

    def owed(s, wh):
        """the finish of a job has to be announced before the worker sleeps or ends"""
        tr = trace(s)
        if not s.tags.pop("owe", None):
            return
        # writes that finished the job: everything since the last invocation
        i = max([k for k, e in enumerate(tr) if e[0] == "invoke"] or [0])
        for cv, mu in wcv | p.subcv:
            seg = tr[i:]
            r = wakes([e for e in seg if e[0] != "wait"], cv, mu)
            if r:
                fail("wakeup", "finish of a task", r[0], r[1])
            else:
                check.ok("wakeup", "finish of a task")
            if (cv, mu) in p.shared:
                ns = [e for e in seg if e[0] == "notify" and e[1] == cv]
                if ns and not any(e[2] == "all" for e in ns):
                    fail("clients", "finish of a task", ns[-1][3], "only one of the threads waiting for the worker is woken; the one that waits for its task can sleep on")
                elif ns:
                    check.ok("clients", "finish of a task")

    def hook(s, kind, d):
        if kind == "lock":
            interfere(s)
            s.tags["pending"] = s.tags.get("job") is not None
        elif kind == "unlock":
            settle(s)
        elif kind == "invoke":
            if s.tags.get("job") is None:
                fail("handover", "task runs once", m.where(s), "a task is run that was not submitted or has already been reported finished")
            elif d != Ptr(p.mark[s.tags["job"]], 0):
                fail("handover", "task runs once", m.where(s), "an old task is run instead of the submitted one")
            elif s.tags.get("ran"):
                fail("handover", "task runs once", m.where(s), "one submitted task is run twice")
                s.ended = "cut"
            s.tags["ran"] = s.tags.get("ran", 0) + 1
        elif kind == "wait":
            cv, mu = d
            settle(s)
            owed(s, m.where(s))
            n = s.tags["waits"] = s.tags.get("waits", 0) + 1
            if s.tags.get("job") is not None:
                fail("handover", "no sleep over work", m.where(s), "the thread goes to sleep while a task is waiting to run" if not s.tags.get("ran") else "the thread goes to sleep without reporting the finished task")
                s.ended = "cut"
                return
            if s.tags.get("stopping"):
                fail("teardown", "no sleep when stopping", m.where(s), "the thread goes to sleep although it was asked to stop")
                s.ended = "cut"
                return
            # what the client does from here must wake it
            key = (cv, mu, vkeys(s))
            if key not in blocks:
                blocks[key] = True
                for fn, args in (("d_submit", [Ptr(p.fo[2], 0)]), ("d_dtor", [])):
                    for o in p.method(s, fn, args, fn[2:], True):
                        r = wakes(trace2(o), cv, mu)
                        if r:
                            fail("wakeup", "sleeping thread, " + fn[2:].replace("dtor", "destructor"), r[0], r[1])
                        else:
                            check.ok("wakeup", "sleeping thread, " + fn[2:].replace("dtor", "destructor"))
            if n > 4:
                s.ended = "cut"
                return
            interfere(s)
            s.tags["pending"] = s.tags.get("job") is not None

    def vkeys(s):
        return tuple(sorted((k, repr(v)) for k, v in s.mem[m.obj].cells.items()))

    def trace2(o):
        return trace(o)
    m.hook = hook
    m.role = "worker"
    body = idle.clone()
    body.tags = dict(idle.tags)
    body.tags["tr"] = ()
    outs = m.run(body, runfn, [tp])
    for o in outs:
        flags["paths"] += 1
        if o.ended == "cut":
            continue
        if o.ended == "ret":
            flags["exit"] += 1
            owed(o, w)
            balanced("thread body", o)
            if not o.tags.get("stopping"):
                fail("handover", "thread ends only on request", w, "the thread ends although it was not asked to stop")
            elif o.tags.get("job") is not None:
                fail("handover", "thread ends only on request", w, "the thread ends with a task unfinished")
        else:
            fail("handover", "thread body", o.tags.get("abort", ("", w))[1], "the thread dies (%s)" % o.ended)
    m.hook = None
    for f in fails:
        check.bad(*f)
    bad = {f[0] for f in fails}
    if not flags["ran"] and not fails:
        check.undecided("handover", "task runs once", "no path runs a task")
    elif "handover" not in bad:
        check.ok("handover", "task runs once")
    if not flags["exit"] and not fails:
        check.undecided("teardown", "thread ends", "no path ends the thread")
    elif "teardown" not in bad:
        check.ok("teardown", "no sleep when stopping")
    for wh, what in m.bad:
        check.bad("lock-balance", "mutex state", wh, what)
    if not m.bad:
        check.ok("lock-balance", "mutex state")
    # --- locksets
    wk = [a for a in m.acc if a[0] == "worker"]
    cl = [a for a in m.acc if a[0] in ("submit", "wait", "dtor") or (a[0] == "ctor" and a[8])]
    races, early = {}, {}
    pairs = 0
    for x in sorted(set(wk), key=repr):
        for y in sorted(set(cl), key=repr):
            if x[1] < y[2] and y[1] < x[2] and (x[3] or y[3]):
                pairs += 1
                if x[5] & y[5] or (x[4] and y[4]):
                    continue
                if x[6] and y[0] in ("submit", "dtor"):
                    continue
                if y[0] == "ctor":
                    early[(y[7])] = x
                    continue
                races[(x[7], y[7])] = (x, y)
    check.count("conflicting access pairs", pairs)
    check.count("worker paths", flags["paths"])
    check.count("abstract steps", m.nsteps)
    for k, x in early.items():
        check.bad("start", "field initialised after start", k, "the thread (%s) uses a field the constructor writes after starting it" % x[7])
    if not early:
        check.ok("start", "field initialised after start")
    for (a, b), (x, y) in races.items():
        check.bad("lockset", "worker against %s" % y[0], x[7], "races with the access at %s (bytes %d..%d)" % (b, max(x[1], y[1]), min(x[2], y[2])))
    if not races:
        check.ok("lockset", "all pairs")
    check.assume += ["a task does not submit to the pool it runs on", "tasks do not throw"]


def division(check, ts, concrete):
    check.rule("cover", "the chunks handed out for an index range are consecutive and cover it exactly once, for every range length (symbolic length per thread count)", 8)
    check.rule("thread-ids", "chunks that run at the same time get different thread numbers below the thread count", 8)
    check.rule("block", "every thread number below the thread count is run exactly once with the right count", 4)
    check.rule("awaited", "a parallel call returns only after all its tasks finished, and tasks do not share the caller's changing variables", 8)
    mod = load()
    w = "c/misc.hpp ThreadPool"

    def fresh(T, conc=False):
        m = SelMachine(mod)
        m.exactdiv = True
        m.install_omp(1)
        m.install_pool(T)
        s = run_ctors(m, m.new_state())
        r = m.run(s, "d_psize", [])
        s, size = r[0], r[0].result
        s.ended = None
        po = s.alloc(size, "pool", "heap")
        tag = s.alloc(8, "tag", "heap")

        def rec(mm, st, ins, a):
            if a[0] != Ptr(tag, 0):
                st.tags["recs"] = st.tags.get("recs", ()) + (("stale",),)
            else:
                st.tags["recs"] = st.tags.get("recs", ()) + ((a[1], a[2], a[3], st.tags.get("thr")),)
            return None
        m.register(r"^rec\(void\*, int, int, int\)", rec)
        m.real = lambda st: True
        return m, s, po, tag

    def pool(m, s, po, T):
        out = m.run(s, "d_pool", [Ptr(po, 0), T])
        if len(out) != 1 or out[0].ended != "ret":
            raise Undecided("pool constructor: %s" % [o.ended for o in out])
        st = out[0]
        st.ended = None
        return st

    def fin(m, key, o):
        if o.ended != "ret":
            check.bad("cover", key, o.tags.get("abort", ("", w))[1], "does not return (%s)" % o.ended)
            return False
        if o.tags.get("pend"):
            check.bad("awaited", key, w, "returns while %d tasks are still running" % len(o.tags["pend"]))
        elif any(r[0] == "stale" for r in o.tags.get("recs", ())):
            check.bad("awaited", key, w, "a task runs with a body other than the one it was given")
        return True

    def zero(m, o, d):
        d = P(d)
        if d.is_zero():
            return True
        lo, hi = m.rng(o, d)
        if lo == 0 and hi == 0:
            return True
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return False
        raise Undecided("chunk bounds differ by %r in [%s,%s]" % (d, lo, hi))

    def s32(v):
        return sgn(v, 32) if isinstance(v, int) else v
    for T in ts:
        jobs = [("N=%d" % n, n) for n in sorted(set(list(range(0, min(T, concrete) + 2)) + [T - 1, T, T + 1, 2 * T + 1]))] + [("N>=%d" % (T + 1), None)]
        for nm, n in jobs:
            key = "threads=%d %s" % (T, nm)
            try:
                m, s, po, tag = fresh(T)
                s = pool(m, s, po, T)
                b = Poly.sym("begin.%d.%s" % (T, nm), 0, 1 << 20)
                N = n if n is not None else Poly.sym("N.%d" % T, T + 1, 1 << 24)
                m.log, m.conc = {}, set()
                outs = m.run(s, "d_for", [Ptr(po, 0), b, simp(b + N), Ptr(tag, 0)])
                okc = oki = True
                for o in outs:
                    if not fin(m, key, o):
                        okc = False
                        continue
                    recs = [r for r in o.tags.get("recs", ()) if r[0] != "stale"]
                    cur, left = b, list(recs)
                    while left and okc:
                        i = next((i for i, r in enumerate(left) if zero(m, o, P(s32(r[0])) - cur)), None)
                        if i is None:
                            check.bad("cover", key, w, "no chunk starts at index %r" % cur)
                            okc = False
                            break
                        cur = P(s32(left.pop(i)[1]))
                    if okc and not zero(m, o, cur - (b + N)):
                        check.bad("cover", key, w, "the chunks end at %r instead of the end of the range" % cur)
                        okc = False
                    ids = [s32(r[2]) for r in recs]
                    if not all(isinstance(i, int) for i in ids):
                        raise Undecided("thread number not constant")
                    if len(set(ids)) != len(ids) or any(not 0 <= i < T for i in ids):
                        check.bad("thread-ids", key, w, "thread numbers %s for %d threads" % (ids, T))
                        oki = False
                if okc:
                    check.ok("cover", key)
                if oki:
                    check.ok("thread-ids", key)
                cf = m.conflicts()
                if cf:
                    a, bb, oo, x, y = cf[0]
                    check.bad("awaited", key, a, "%s of %s races with the %s at %s" % (x, oo, y, bb))
                elif m.events:
                    check.bad("awaited", key, m.events[0][0], m.events[0][1])
                else:
                    check.ok("awaited", key)
                check.count("abstract steps", m.nsteps)
            except Undecided as e:
                check.undecided("cover", key, e)
        key = "threads=%d" % T
        try:
            m, s, po, tag = fresh(T)
            s = pool(m, s, po, T)
            outs = m.run(s, "d_block", [Ptr(po, 0), Ptr(tag, 0)])
            for o in outs:
                if not fin(m, key, o):
                    continue
                recs = sorted((s32(r[0]), s32(r[1])) for r in o.tags.get("recs", ()) if r[0] != "stale")
                check.check("block", key, recs == [(i, T) for i in range(T)], w, "thread numbers and counts run: %s" % recs)
            cf = m.conflicts()
            if cf:
                check.bad("awaited", key, cf[0][0], "%s of %s races with the %s at %s" % (cf[0][3], cf[0][2], cf[0][4], cf[0][1]))
        except Undecided as e:
            check.undecided("block", key, e)
    # a platform that does not know its number of processors
    for hw in (0, 3):
        key = "processors reported %d" % hw
        try:
            m, s, po, tag = fresh(hw)
            s = pool(m, s, po, 0)
            o = m.run(s, "d_count", [Ptr(po, 0)])
            check.check("block", key, len(o) == 1 and o[0].result == max(hw, 1), w, "a default pool has %s threads" % (o[0].result if o else "?"))
        except Undecided as e:
            check.undecided("block", key, e)


def parallel(check, tier):
    t = tier == "thorough"
    division(check, range(1, 10) if not t else list(range(1, 18)) + [24, 33, 64], 9 if not t else 17)
    import msm, fft
    check.rule("msm-race", "windows and digit blocks computed concurrently by the pool write disjoint memory", 5)
    check.rule("multiexp-race", "points, windows and packing blocks computed concurrently by OpenMP write disjoint memory", 5)
    check.rule("transform-race", "butterflies, swaps and scalings computed concurrently write disjoint vector entries and table slots", 5)
    check.rule("thread-limit", "the caller's OpenMP thread limit is restored on return", 3)

    def cf(m, rule, key):
        c = m.conflicts()
        if c:
            a, b, o, x, y = c[0]
            check.bad(rule, key, a, "%s of %s races with the %s at %s" % (x, o, y, b))
        else:
            check.ok(rule, key)
    mk = msm.load()
    for n, S, T in [(2, 8, 3), (5, 8, 2), (3, 8, 5), (2, 16, 9), (4, 3, 4)] + ([(6, 8, 4), (3, 32, 8), (9, 8, 16)] if t else []):
        key = "n=%d bytes=%d threads=%d" % (n, S, T)
        r = msm.Run(mk, "d_msm", n, S, T)
        if r.err:
            check.undecided("msm-race", key, r.err)
        else:
            cf(r.m, "msm-race", key)
    omp = msm.load("-fopenmp", "-DUSE_OPENMP")
    for n, S, T, ex in [(2, 8, 3, 0), (3, 8, 2, 0), (2, 16, 4, 3), (5, 8, 4, 2), (4, 8, 8, 1), (3, 8, 2, 5)] + ([(6, 8, 5, 0), (3, 32, 4, 8)] if t else []):
        key = "n=%d bytes=%d threads=%d" % (n, S, T) + (" limited to %d" % ex if ex else "")
        r = msm.Run(omp, "d_multiexp", n, S, T, explicit=ex)
        if r.err:
            check.undecided("multiexp-race", key, r.err)
            continue
        cf(r.m, "multiexp-race", key)
        for st in r.fin:
            check.check("thread-limit", key, st.tags.get("ompT", r.m.omp_max) == T, "c/multiexp.cpp multiexp", "the limit is %s afterwards, it was %d" % (st.tags.get("ompT"), T))
    fm = fft.load()
    for p, N, n, T in [(97, 8, 8, 2), (97, 16, 8, 3), (97, 16, 16, 5), (97, 8, 4, 4), (97, 32, 16, 9)] + ([(257, 64, 64, 7), (257, 128, 64, 16)] if t else []):
        for fn in ("ctor", "d_fft", "d_ifft"):
            key = "%s domain=%d n=%d threads=%d" % (fn.replace("d_", ""), N, n, T)
            try:
                c = fft.Ctx(fm, p, T)
                how, _ = c.call("d_ctor", [Ptr(c.obj, 0), N])
                if how != "ret":
                    raise Undecided("constructor: %s" % how)
                if fn != "ctor":
                    ao = c.s.alloc(fft.SZ * n, "vector", "heap")
                    for i in range(n):
                        c.s.mem[ao].cells[fft.SZ * i] = (fft.SZ, Rat(Poly.sym("a%d" % i)))
                    c.m.log, c.m.conc = {}, set()
                    how, _ = c.call(fn, [Ptr(c.obj, 0), Ptr(ao, 0), n])
                    if how != "ret":
                        raise Undecided(how)
                cf(c.m, "transform-race", key)
            except Undecided as e:
                check.undecided("transform-race", key, e)
    check.assume += ["ranges have fewer than 2^24 elements (int indexes)", "a worker runs a submitted task once before its wait returns (worker property)", "OpenMP static scheduling as specified"]
