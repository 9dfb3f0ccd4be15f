"""The binary container reader (BinFile) and the headers built on it."""
from absint import *
from cfile import *
from report import REPO, ROOT

FL = ["-fopenmp", "-DUSE_OPENMP", "-I" + ROOT + "/drivers/stubs", "-I" + REPO + "/c"]
MAGIC = b"wtns"


MOD = {}


def load(which="binfile"):
    if which not in MOD:
        MOD[which] = compile_ir(ROOT + "/drivers/%s.cpp" % which, FL)
    return MOD[which]


class Session:
    """analysis of one call sequence on a reader over an arbitrary file"""

    def __init__(self, mod, check, label, forced_ids=None, nsec=None, size_hi=1 << 62):
        self.m = FileMachine(mod, 0, size_hi)
        self.m.CAP = (160, 60000, 45)
        self.check = check
        self.label = label
        self.maxv = Poly.sym("maxversion", 0, (1 << 32) - 1)
        m = self.m
        if nsec is not None:
            m.forced[(P(8).key(), 4)] = nsec
        off = P(12)
        self.entry = []
        if forced_ids is not None:
            for i in forced_ids:
                m.forced[(off.key(), 4)] = i
                sz = m.forced[((off + 4).key(), 8)] = file_sym(off + 4, 8)
                self.entry.append((i, off + 12, sz))
                off = off + 12 + sz

    def start(self):
        m = self.m
        s = m.new_state()
        self.at = s.alloc(4096, "reader", "input")
        s.mem[self.at].pristine = False
        return s

    def go(self, s, fn, args):
        s = s.clone()
        s.ended = None
        return self.m.run(s, fn, args)

    def opened(self, how):
        m = self.m
        s = self.start()
        if how == "memory":
            f = m.fileobj(s, m.N)
            return self.go(s, "drv_open_mem", [Ptr(self.at, 0), Ptr(f, 0), m.N, self.maxv])
        nm = s.alloc(8, "name", "const")
        s.mem[nm].cells = {0: (1, 97), 1: (1, 0)}
        return self.go(s, "drv_open_file" if how == "file" else "drv_open_existing", [Ptr(self.at, 0), Ptr(nm, 0), self.maxv])

    # ---- oracle
    def assume_all(self, s, conds):
        """add conditions p >= 0; False if they contradict what is known"""
        for p in conds:
            p = P(p)
            if self.m.proves(s, -p - 1):
                return False
            if not self.m.proves(s, p) and not self.m.assume(s, ("ge0", p), True):
                return False
        return True

    def validity(self, s):
        """yield the conditions (as polynomials >= 0) a well-formed file satisfies, in order, as far as the section count
        is known to reach; the last item yielded is ('count', k)"""
        m = self.m
        yield m.N - 12
        for i, b in enumerate(MAGIC):
            v = P(m.fread(s, i, 1))
            yield v - b
            yield b - v
        yield self.maxv - P(m.fread(s, 4, 4))
        n = P(m.fread(s, 8, 4))
        off = P(12)
        k = 0
        while k < 16 and m.proves(s, n - (k + 1)):
            yield m.N - off - 12
            sz = P(m.fread(s, off + 4, 8))
            yield m.N - off - 12 - sz
            off = off + 12 + sz
            k += 1
        yield k - n



    # ---- verdicts
    def key(self, *x):
        return " ".join([self.label] + [str(y) for y in x])

    def bad(self, s, rule, key, where, what):
        """report only with a concrete assignment that satisfies everything known about the partition"""
        w = Witness(self.m, s)
        if w.found is None:
            # does the partition exist at all?  No assignment was found, so nothing is claimed.
            self.check.undecided(rule, key, "no concrete input found for: " + what)
            return
        self.check.bad(rule, key, where, "%s; for example %s" % (what, w.text()))

    def need(self, s, p, rule, key, where, what):
        """p >= 0 in every concretisation"""
        if self.m.proves(s, p):
            self.check.ok(rule, key)
            return True
        t = s.clone()
        if not self.m.assume(t, ("ge0", -P(p) - 1), True):
            self.check.ok(rule, key)
            return True
        self.bad(t, rule, key, where, what)
        return False

    def same(self, s, a, b, rule, key, where, what):
        if not isinstance(a, (int, Poly)) or not isinstance(b, (int, Poly)):
            self.check.undecided(rule, key, "value not tracked: %r" % (a,))
            return False
        d = P(a) - P(b)
        if d.is_zero() or (self.m.proves(s, d) and self.m.proves(s, -d)):
            self.check.ok(rule, key)
            return True
        for q in (d - 1, -d - 1):
            if self.m.proves(s, -q - 1):
                continue
            t = s.clone()
            if self.m.assume(t, ("ge0", q), True) and Witness(self.m, t).found:
                self.bad(t, rule, key, where, what)
                return False
        self.check.undecided(rule, key, "equality not decided: " + what)
        return False

    def common(self, s, key, start=()):
        """rules that hold at the end of every call"""
        c = self.check
        if s.ended == "toolong":
            c.undecided("open", key, "a partition is too long to follow")
            return False
        if s.ended == "crash":
            where, what = s.tags["crash"]
            self.bad(s, "inside", key, where, what)
            return False
        if s.ended == "abort":
            self.bad(s, "exception", key, s.tags.get("abort", ("", ""))[1], "the process is terminated")
            return False
        c.ok("inside", key)
        if s.ended == "throw":
            name, std = self.m.thrown(s)
            where = (s.tags.get("exc") or (0, ""))[1]
            if std is None:
                c.undecided("exception", key, "thrown type not resolved")
            elif std:
                c.ok("exception", key)
            else:
                self.bad(s, "exception", key, where, "throws %s, which no handler of std::exception catches" % name)
        return True

    def released(self, s, key):
        lk = self.m.leaks(s)
        where = (s.tags.get("exc") or (0, "after closing"))[1] if s.ended == "throw" else "after closing"
        if lk:
            self.bad(s, "release", key, where, "never released: " + ", ".join(sorted(set(lk))[:3]))
        else:
            self.check.ok("release", key)

    def judge_open(self, st, key):
        """openings succeed exactly on well-formed files"""
        good = []
        for s in st:
            if not self.common(s, key):
                continue
            if s.ended == "throw":
                self.released(s, key)
                if s.tags.get("fault"):
                    continue
                t = s.clone()
                ok = True
                for p in self.validity(t):
                    if not self.assume_all(t, [p]):
                        ok = False
                        break
                if ok and Witness(self.m, t).found:
                    self.bad(t, "open", key, s.tags["exc"][1], "a well-formed file is rejected")
                else:
                    self.check.ok("open", key)
            elif s.ended == "ret":
                conds = list(self.validity(s.clone()))
                for i, p in enumerate(conds):
                    if not self.need(s, p, "open", key, "end of construction", "a file is accepted although %s" % self.cond_name(i, len(conds))):
                        break
                else:
                    good.append(s)
        return good

    def cond_name(self, i, n):
        if i == 0:
            return "it is shorter than its header"
        if i <= 8:
            return "its type is different"
        if i == 9:
            return "its version is not supported"
        if i == n - 1:
            return "it announces more sections than were read"
        return "the entry or content of section %d does not lie inside it" % ((i - 10) // 2)

    # ---- call sequences
    def find(self, sid, pos):
        r = [k for k, e in enumerate(self.entry) if e[0] == sid]
        return r[pos] if pos < len(r) else None

    def sequence(self, s0, ops, key):
        todo = [(s0, 0, None, None)]
        n = 0
        while todo:
            s, i, reading, pos = todo.pop()
            n += 1
            if n > 400:
                self.check.undecided("sequence", key, "too many outcomes")
                return
            if i == len(ops):
                self.close(s, key)
                continue
            op, args = ops[i][0], ops[i][1:]
            at = Ptr(self.at, 0)
            k2 = "%s step %d %s" % (key, i, op)
            for r in self.go(s, "drv_" + op, [at] + list(args)):
                if not self.common(r, k2):
                    continue
                threw = r.ended == "throw"
                where = (r.tags.get("exc") or (0, ""))[1] if threw else "drv_" + op
                nr, np, go_on = reading, pos, not threw
                if op in ("start", "data", "size"):
                    k = self.find(*args)
                    legal = k is not None and not (op == "start" and reading is not None)
                    if threw == legal:
                        if not r.tags.get("fault"):
                            self.bad(r, "lookup", k2, where, "an existing section is refused" if threw else
                                     "a section is started while another is being read" if k is not None else "a section that does not exist is found")
                        continue
                    if not threw:
                        if op == "start":
                            nr, np = k, self.entry[k][1]
                        elif op == "size":
                            self.same(r, self.m.norm(r, r.result, 64, False), self.entry[k][2], "lookup", k2, where, "the size of a section is not the stated one")
                        else:
                            self.points(r, r.result, self.entry[k][1], "lookup", k2, where)
                    else:
                        self.check.ok("lookup", k2)
                elif op in ("u32", "u64", "read"):
                    n8 = {"u32": 4, "u64": 8}.get(op, args[0] if args else 0)
                    if reading is None:
                        continue
                    e = self.entry[reading]
                    if threw:
                        t = r.clone()
                        if self.assume_all(t, [e[1] + e[2] - pos - n8]) and Witness(self.m, t).found:
                            self.bad(t, "sequence", k2, where, "a read inside the section is refused")
                        else:
                            self.check.ok("sequence", k2)
                    else:
                        if not self.need(r, self.m.N - pos - n8, "sequence", k2, where, "a read beyond the end of the data succeeds"):
                            continue
                        if op == "read":
                            self.points(r, r.result, pos, "sequence", k2, where)
                        else:
                            v = self.m.norm(r, r.result, 8 * n8, False) if isinstance(r.result, (int, Poly)) else r.result
                            self.same(r, v, self.m.fread(r, pos, n8), "sequence", k2, where, "the value read is not the little-endian value at the current position")
                        np = P(pos) + n8
                elif op == "end":
                    chk = args[0]
                    if reading is None:
                        if chk and not threw:
                            self.bad(r, "sequence", k2, where, "ending a section that was not started succeeds")
                        else:
                            self.check.ok("sequence", k2)
                        go_on = False
                    else:
                        e = self.entry[reading]
                        d = P(pos) - e[1] - e[2]
                        if threw:
                            t = r.clone()
                            if not chk or (self.assume_all(t, [d, -d]) and Witness(self.m, t).found):
                                self.bad(t, "sequence", k2, where, "ending a section that was read completely is refused")
                            else:
                                self.check.ok("sequence", k2)
                        elif chk:
                            self.same(r, pos, e[1] + e[2], "sequence", k2, where, "the end of a section is accepted although its size was not consumed exactly")
                        nr = None
                if go_on:
                    todo.append((r, i + 1, nr, np))
                else:
                    r.ended = None
                    self.close(r, k2)

    def points(self, s, v, off, rule, key, where):
        m = self.m
        if not isinstance(v, Ptr) or m.limit(s, v.obj) is None:
            if isinstance(v, Ptr):
                self.bad(s, rule, key, where, "the returned pointer is not into the file's contents")
            else:
                self.check.undecided(rule, key, "returned pointer not tracked")
            return
        if not s.mem[v.obj].alive:
            self.bad(s, rule, key, where, "the returned pointer is into released memory")
            return
        self.same(s, m.norm(s, v.off, 64, False), off, rule, key, where, "the returned pointer is not at the expected position")

    def close(self, s, key):
        s.frames = []
        if s.tags.pop("closed", None):
            return
        for r in self.go(s, "drv_close", [Ptr(self.at, 0)]):
            if self.common(r, key + " close") and r.ended == "ret":
                self.released(r, key + " close")


def unit(check, tier, u):
    kind, how, ids = u
    mod = load()
    label = "%s %s" % (how, "any directory" if ids is None else "sections " + ",".join(map(str, ids)))
    S = Session(mod, check, label, ids, None if ids is None else len(ids), (1 << 62) if ids is not None else kind)
    st = S.opened(how)
    check.count("partitions", S.m.nparts + 1)
    check.count("instructions", S.m.nsteps)
    good = S.judge_open(st, S.key("open"))
    if ids is not None and not good and not any(s.ended == "crash" for s in st):
        check.undecided("open", S.key("open"), "no successful opening found")
    if ids is None or how == "existing":
        for s in good:
            if how == "existing":
                for r in S.go(s, "drv_drop", [Ptr(S.at, 0)]):
                    if S.common(r, S.key("drop")):
                        S.released(r, S.key("drop"))
            else:
                S.close(s, S.key("open"))
    else:
        L1, L2 = Poly.sym("length1", 0, M64 - 1), Poly.sym("length2", 0, M64 - 1)
        good = good[:1] if tier == "quick" else good
        seqs = [[("end", 1)], [("end", 0)]]
        for e in sorted(set(ids)):
            n = ids.count(e)
            for p in range(n):
                sz = S.entry[S.find(e, p)][2]
                seqs.append([("start", e, p), ("u32",), ("u64",), ("read", L1), ("read", L2), ("end", 1), ("end", 1)])
                seqs.append([("start", e, p), ("read", sz), ("end", 1), ("start", e, p), ("u64",), ("u32",), ("end", 0), ("start", ids[0], 0), ("u32",)])
                seqs.append([("start", e, p), ("start", ids[0], 0)])
                seqs.append([("start", e, p), ("u32",), ("size", ids[-1], 0), ("data", ids[0], 0), ("u32",), ("end", 1)])
                seqs.append([("size", e, p), ("data", e, p), ("size", e, p)])
            seqs += [[(op, e, n)] for op in ("start", "size", "data")] + [[(op, e, 0xffffffff)] for op in ("start", "size", "data")]
        for absent in (0, 7, 0x7fffffff, 0xfffffff0):
            if absent not in ids:
                seqs += [[(op, absent, 0)] for op in ("start", "size", "data")]
        for s in good:
            for i, q in enumerate(seqs):
                n0 = S.m.nparts
                S.sequence(s, q, S.key(" ".join("%s(%s)" % (o[0], ",".join(str(x) if isinstance(x, int) else "n" for x in o[1:])) for o in q)))
                check.count("call sequences")
        check.count("partitions", S.m.nparts)
    for x in S.m.unmodelled:
        check.notes.append("not modelled: " + x)
    check.count("functions analysed", len(S.m.visited_fns))


def guarded(check, tier, u):
    try:
        unit(check, tier, u)
    except Undecided as e:
        check.undecided("open", repr(u), e)


def reader(check, tier):
    from report import parallel
    check.rule("inside", "no load, copy or dereference leaves the file image, uses a released or null object, or asks for a copy with no thread", 20)
    check.rule("exception", "every rejection is an object of a standard exception type, not a pointer, and nothing terminates the process", 20)
    check.rule("release", "after a rejection and after closing, memory, mapping and descriptor have been released exactly once", 20)
    check.rule("open", "opening succeeds exactly when type and version match and every directory entry and section lies inside the file", 20)
    check.rule("lookup", "section lookups return the stated position and size, in file order per number, and reject what does not exist", 10)
    check.rule("sequence", "reads return little-endian values at the current position, advance by their size and never leave the file; ending checks exact consumption", 10)
    units = [(0, h, ids) for h in ("memory", "file") for ids in ([], [1], [1, 2], [2, 1, 2], [0x80000001, 1, 0x80000001])]
    units += [(0, "existing", []), (0, "existing", [1, 2])] + [(47, h, None) for h in ("memory", "file")]
    if tier == "thorough":
        units += [(0, h, ids) for h in ("memory", "file") for ids in ([3, 3, 3, 3], [5, 4, 3, 2, 1], [1, 2, 3, 1, 2, 3], [0, 0xffffffff], [2, 2, 1])]
        units += [(59, h, None) for h in ("memory", "file")]
    load()
    check.count("scenarios", len(units))
    check.assume += ["ThreadUtils::parcpy(dst, src, n, threads) copies n bytes and needs at least one thread (interface of the embedding project)",
                     "unsigned 64-bit pointers; a file is at most 2^62 bytes; operator new succeeds or throws"]
    parallel(check, guarded, units)


# ---------------------------------------------------------------- headers
def wtns_spec(S, s):
    """(conditions >= 0 of an acceptable file, fields) of a witness header"""
    f = S.m.fread
    k = S.find(1, 0)
    if k is None:
        return None
    _, st, sz = S.entry[k]
    n8 = P(f(s, st, 4))
    tot = n8 + 8
    conds = [sz - tot, tot - sz]
    return conds, [("w_n8", "value", st, 4), ("w_prime", "number", st + 4, n8), ("w_nVars", "value", st + 4 + n8, 4)]


def zkey_spec(S, s):
    f = S.m.fread
    ks = [S.find(i, 0) for i in (1, 2, 4)]
    if None in ks:
        return None
    _, st1, sz1 = S.entry[ks[0]]
    _, st, sz = S.entry[ks[1]]
    sz4 = S.entry[ks[2]][2]
    # no field lies in a part of the file that a shorter section does not have, so the sizes come first
    prot = P(f(s, st1, 4))
    nq = P(f(s, st, 4))
    conds = [sz1 - 4, 4 - sz1, prot - 1, 1 - prot, sz - 4 - nq - 4]
    nr = P(f(s, st + 4 + nq, 4))
    tot = nq * 19 + nr + 20
    conds += [sz - tot, tot - sz]
    p = st + 8 + nq + nr
    fields = [("z_n8q", "value", st, 4), ("z_qPrime", "number", st + 4, nq), ("z_n8r", "value", st + 4 + nq, 4), ("z_rPrime", "number", st + 8 + nq, nr),
              ("z_nVars", "value", p, 4), ("z_nPublic", "value", p + 4, 4), ("z_domainSize", "value", p + 8, 4)]
    p = p + 12
    for nm, w in (("alpha1", 2), ("beta1", 2), ("beta2", 4), ("gamma2", 4), ("delta1", 2), ("delta2", 4)):
        fields.append(("z_" + nm, "pointer", p, nq * w))
        p = p + nq * w
    fields.append(("z_nCoefs", "expr", quotient(sz4, nr + 12), None))
    return conds, fields


def header_unit(check, tier, u):
    kind, ids = u
    mod = load("headers")
    spec = wtns_spec if kind == "wtns" else zkey_spec
    S = Session(mod, check, "%s header, sections %s" % (kind, ",".join(map(str, ids))), ids, len(ids))
    m = S.m
    m.install_gmp()
    good = S.judge_open(S.opened("memory"), S.key("open"))
    check.count("partitions", m.nparts + 1)
    for s0 in good[:1]:
        for s in S.go(s0, "drv_" + kind, [Ptr(S.at, 0)]):
            key = S.key("load")
            if not S.common(s, key):
                continue
            sp = spec(S, s)
            if s.ended == "throw":
                where = s.tags["exc"][1]
                t = s.clone()
                if sp is None or not S.assume_all(t, sp[0]):
                    check.ok("accept", key)
                elif Witness(m, t).found:
                    S.bad(t, "accept", key, where, "a well-formed header is rejected")
                else:
                    check.undecided("accept", key, "neither a well-formed file reaching %s nor a proof that none does" % where)
                s.ended = None
                S.close(s, S.key("rejected"))
                continue
            if sp is None:
                S.bad(s, "accept", key, "end of loading", "a header is returned although one of its sections is missing")
                continue
            h = s.result
            if not isinstance(h, Ptr):
                check.undecided("fields", key, "returned header not tracked")
                continue
            if not all([S.need(s, c, "accept", key, "end of loading", "a header is accepted although its protocol or its section size is wrong") for c in sp[0]]):
                continue
            for c in sp[0]:
                m.assume(s, ("ge0", P(c)), True)
            for nm, how, off, size in sp[1]:
                k2 = S.key(nm[2:])
                for r in S.go(s, nm, [h]):
                    if not S.common(r, k2):
                        continue
                    v = r.result
                    if how == "value":
                        v = m.norm(r, v, 32, False) if isinstance(v, (int, Poly)) else v
                        S.same(r, v, m.fread(r, off, 4), "fields", k2, nm, "the field is not the value stored at its position")
                    elif how == "expr":
                        S.same(r, m.norm(r, v, 64, False) if isinstance(v, (int, Poly)) else v, off, "fields", k2, nm, "the field is not the number of entries its section holds")
                    elif how == "pointer":
                        S.points(r, v, off, "fields", k2, nm)
                    else:
                        g = r.tags.get("mpzval", {}).get((v.obj, m.offset(r, v))) if isinstance(v, Ptr) else None
                        if g is None:
                            S.bad(r, "fields", k2, nm, "the number is not taken from the file")
                            continue
                        if not g[0] and not m.proves(r, 1 - P(size)):
                            S.bad(r, "fields", k2, nm, "the number is not read in little-endian order")
                            continue
                        S.same(r, g[1], off, "fields", k2, nm, "the number is not read at its position")
                        S.same(r, g[2], size, "fields", k2, nm, "the number is not read with its length")
            for r in S.go(s, "drv_%s_drop" % kind, [h]):
                if S.common(r, S.key("drop")):
                    r.ended = None
                    S.close(r, S.key("accepted"))
    check.count("instructions", m.nsteps)
    for x in m.unmodelled:
        check.notes.append("not modelled: " + x)


def header_guarded(check, tier, u):
    try:
        header_unit(check, tier, u)
    except Undecided as e:
        check.undecided("accept", repr(u), e)


def headers(check, tier):
    from report import parallel
    check.rule("inside", "no load, import or dereference leaves the file image or uses a released, null or uninitialised object; no division by zero", 10)
    check.rule("exception", "every rejection is an object of a standard exception type", 10)
    check.rule("release", "the header, its big integers and the file are released exactly once on acceptance and on rejection", 4)
    check.rule("open", "the container below is opened exactly when well formed", 4)
    check.rule("accept", "a header is returned exactly when its sections exist, the protocol is the supported one and sizes match the fields exactly", 6)
    check.rule("fields", "every field has the value, position and length the format prescribes", 12)
    load("headers")
    units = [("wtns", [1]), ("wtns", [1, 2]), ("wtns", [2]), ("wtns", []), ("zkey", [1, 2, 4]), ("zkey", [1, 2]), ("zkey", [1]), ("zkey", [2, 4]), ("zkey", [1, 4])]
    if tier == "thorough":
        units += [("wtns", [2, 1]), ("wtns", [1, 1]), ("zkey", [4, 2, 1]), ("zkey", [1, 2, 3, 4]), ("zkey", [4, 1, 2]), ("zkey", [1, 2, 2, 4, 4]), ("zkey", [])]
    check.count("scenarios", len(units))
    check.assume += ["the container reader's copy interface as in the container property; GMP's mpz_import as documented"]
    parallel(check, header_guarded, units)
