"""Interprocedural write-effect analysis over LLVM IR (as dumped by tools/irdump.cpp).

Every pointer is described by its origins: a root (argument, static object, local, heap) and the path of offsets loaded
through on the way.  A function's summary lists the places it stores to in those terms, plus the origins of its result;
calls substitute the actual arguments.  Flow-insensitive inside a function, summaries iterated to a fixed point.
Nothing is executed and no path condition is interpreted.
"""
import re

LOCK = re.compile(r"pthread_mutex_lock|std::mutex::lock|lock_guard|unique_lock|__kmpc_(critical|set_lock|reduce)|pthread_rwlock|omp_set_lock|std::call_once|pthread_once")
DEPTH = 5
MANY = 24


def norm(s):
    """widen: too many offsets of one (root, path) become the unknown offset"""
    by = {}
    for r, p, o in s:
        by.setdefault((r, p), set()).add(o)
    out = set()
    for (r, p), os in by.items():
        if None in os or len(os) > 8:
            out.add((r, p, None))
        else:
            out.update((r, p, o) for o in os)
    return out


def shift(s, k):
    return {(r, p, None if (o is None or k is None) else o + k) for r, p, o in s}


def split_dem(dem):
    """(class path list, name, parameter list) of a demangled function name"""
    depth, i, par = 0, 0, None
    for i, ch in enumerate(dem):
        if ch in "<(" and not dem[:i].endswith("operator") and not dem[:i].endswith("operator<"):
            if ch == "(" and depth == 0 and not dem[i:].startswith("(anonymous namespace)"):
                par = i
                break
            depth += 1
        elif ch in ">)" and depth and not dem[:i].endswith("-") and not dem[:i].endswith("operator"):
            depth -= 1
    head = dem if par is None else dem[:par]
    tail = "" if par is None else dem[par:]
    parts, cur, depth = [], "", 0
    k = 0
    while k < len(head):
        ch = head[k]
        if ch in "<(":
            depth += 1
        elif ch in ">)":
            depth -= 1
        if depth <= 0 and head.startswith("::", k):
            parts.append(cur)
            cur = ""
            k += 2
            continue
        if depth <= 0 and ch == " " and not cur.startswith("operator"):
            cur = ""
            if "operator" not in head[k:k + 10] or True:
                k += 1
                continue
        cur += ch
        k += 1
    parts.append(cur)
    parts = [re.sub(r"<.*", "", x) if not x.startswith("operator") else x for x in parts]
    ps, depth, cur = [], 0, ""
    end = tail.rfind(")")
    for ch in tail[1:end]:
        if ch in "<([{":
            depth += 1
        elif ch in ">)]}":
            depth -= 1
        if ch == "," and depth == 0:
            ps.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip() and cur.strip() != "void":
        ps.append(cur.strip())
    return parts[:-1], parts[-1], ps, tail[end + 1:].strip() if end >= 0 else ""


class Effects:
    def __init__(self, mod):
        self.mod = mod
        self.fns = mod["functions"]
        self.summ = {}
        self.calls = {}             # caller -> set of callees (defined)
        self.guard = {}             # function -> set of blocks inside a guarded static initialisation
        # functions that take a lock: their writes are ordered with those of other callers
        self.sync = {n for n, f in self.fns.items() if not f["decl"] and any(
            i["op"] in ("call", "invoke") and i["callee"][0] == "f" and LOCK.search(self.fns[i["callee"][1]]["dem"]) for b in f["blocks"] for i in b)}
        self.run()

    # ---- one function
    def val(self, v, env):
        k = v[0]
        if k == "r":
            return env.get(v[1], set())
        if k == "g":
            return {(("G", v[1]), (), 0)}
        if k == "off":
            return shift(self.val(v[1], env), v[2])
        if k == "ce":
            out = set()
            for x in v[3]:
                if isinstance(x, list):
                    out |= shift(self.val(x, env), None)
            return out
        return set()

    def load(self, s, mem):
        out = set()
        for r, p, o in s:
            if r[0] in "LH":
                m = mem.get(r, {})
                if o is None:
                    for x in m.values():
                        out |= x
                else:
                    out |= m.get(o, set()) | m.get(None, set())
            elif len(p) < DEPTH:
                out.add((r, p + (o,), 0))
            if r[0] == "A":         # what this function itself stored there
                m = mem.get((r, p), {})
                out |= (m.get(o, set()) | m.get(None, set())) if o is not None else set().union(*m.values()) if m else set()
        return out

    def put(self, s, v, mem):
        ch = False
        for r, p, o in s:
            if r[0] == "G" or not v:
                continue
            key = r if r[0] in "LH" else (r, p)
            c = mem.setdefault(key, {}).setdefault(o, set())
            if not v <= c:
                n = norm(c | v)
                if n != c:
                    mem[key][o] = n
                    ch = True
        return ch

    def subst(self, o, args, mem):
        """origins in the caller of a callee's origin"""
        r, p, off = o
        if r[0] == "G":
            return {o}
        if r[0] != "A" or r[1] >= len(args):
            return set()
        cur = args[r[1]]
        for step in p:
            cur = self.load(shift(cur, step), mem)
        return shift(cur, off)

    def function(self, name):
        f = self.fns[name]
        old = self.summ.get(name)
        env, mem = {}, {}
        for i, a in enumerate(f["args"]):
            if a[1] == "p":
                env[a[0]] = {(("L", "byval%d" % i), (), 0)} if a[2] == "byval" else {(("A", i), (), 0)}
                if a[2] == "byval":
                    mem[("L", "byval%d" % i)] = {}
        writes, reads, ret = {}, {}, set()
        callees = set()
        file = f.get("file", "")
        glob = set()                # static objects mentioned at all
        for rnd in range(12):
            ch = False
            for bi, b in enumerate(f["blocks"]):
                ing = bi in self.guard.get(name, ())
                for ins in b:
                    op, i = ins["op"], ins["id"]
                    where = (ins.get("file", file), ins.get("line", f.get("line", 0)))

                    def wr(s, at=False):
                        for x in s:
                            if x[0][0] in "GA":
                                writes.setdefault((x, ing, at), where)

                    def rd(s):
                        for x in s:
                            if x[0][0] == "G":
                                reads.setdefault(x[0][1], where)
                    new = None
                    if op == "alloca":
                        new = {(("L", i), (), 0)}
                    elif op == "getelementptr":
                        new = self.val(ins["base"], env)
                        if ins.get("var") or "off" not in ins:
                            new = shift(new, None)
                        else:
                            new = shift(new, ins["off"])
                    elif op == "load":
                        s = self.val(ins["ptr"], env)
                        rd(s)
                        if ins["ty"] in ("p", "S", "A"):
                            new = self.load(s, mem)
                    elif op == "store":
                        s = self.val(ins["ptr"], env)
                        wr(s, bool(ins.get("atomic")))
                        ch |= self.put(s, self.val(ins["val"], env), mem)
                    elif op in ("atomicrmw", "cmpxchg"):
                        for v in ins.get("ops", [])[:1]:
                            wr(self.val(v, env), True)
                    elif op == "phi":
                        new = set()
                        for v, _ in ins["in"]:
                            new |= self.val(v, env)
                    elif op == "select":
                        new = set()
                        for v in ins["ops"][1:]:
                            new |= self.val(v, env)
                    elif op in ("call", "invoke"):
                        new, c2 = self.call(name, ins, env, mem, wr, rd, callees)
                        ch |= c2
                    elif op == "ret":
                        for v in ins.get("ops", []):
                            ret |= {x for x in self.val(v, env) if x[0][0] in "GAH"}
                    elif op in ("freeze", "bitcast", "addrspacecast", "extractvalue", "insertvalue", "inttoptr", "ptrtoint"):
                        new = set()
                        for v in ins.get("ops", []):
                            new |= self.val(v, env)
                    elif op in ("add", "sub", "and", "or") and ins["ty"] == "i64":
                        new = set()
                        for v in ins["ops"]:
                            new |= shift(self.val(v, env), None)
                    if new:
                        n = norm(env.get(i, set()) | new)
                        if len(n) > MANY:
                            n = {x for x in n if x[0][0] == "L"} or n
                        if n != env.get(i):
                            env[i] = n
                            ch = True
            if not ch:
                break
        ret = norm(ret)
        # pointers left behind in memory of the caller
        escapes = {}
        for key, m in mem.items():
            if isinstance(key[0], tuple) and key[0][0] == "A":
                for o, vs in m.items():
                    e = {x for x in vs if x[0][0] in "GAH"}
                    if e:
                        escapes[(key[0], key[1], o)] = e
        res = (writes, reads, frozenset(ret), escapes)
        self.calls[name] = callees
        self.summ[name] = res
        return old is None or set(old[0]) != set(writes) or old[2] != res[2] or set(old[3]) != set(escapes) or any(old[3][k] != escapes[k] for k in escapes)

    HEAP = re.compile(r"^(operator new|malloc|calloc|realloc|aligned_alloc)\b")

    def call(self, name, ins, env, mem, wr, rd, callees):
        args = [self.val(a[0], env) for a in ins["args"]]
        cal = ins["callee"]
        ch = False
        if cal[0] != "f":
            return set(), False
        g = cal[1]
        if g.startswith("__kmpc_fork_call"):
            if ins["args"][2][0][0] != "f":
                return set(), False
            g = ins["args"][2][0][1]
            tl = ("L", "tid%d" % ins["id"])
            args = [{(tl, (), 0)}, {(tl, (), 4)}] + args[3:]
        d = self.fns[g]
        for a in args:              # handing a static object on counts as a use of it
            rd(a)
        if d["decl"]:
            return self.external(g, d, ins, args, mem, wr)
        callees.add(g)
        # an argument passed by value is a copy: nothing of it flows back
        s = self.summ.get(g)
        if s is None:
            return set(), False
        for o, ing, at in s[0]:
            if o[0][0] == "A" and not ing:
                wr(self.subst(o, args, mem), at or ("sync" if g in self.sync else False))
        for o, vs in s[3].items():
            t = self.subst(o, args, mem)
            v = set()
            for x in vs:
                v |= {(("H", ins["id"]), (), 0)} if x[0][0] == "H" else self.subst(x, args, mem)
            ch |= self.put(t, v, mem)
        out = set()
        for x in s[2]:
            out |= {(("H", ins["id"]), (), x[2])} if x[0][0] == "H" else self.subst(x, args, mem)
        return out, ch

    def external(self, g, d, ins, args, mem, wr):
        dem = d["dem"]
        if g.startswith("llvm."):
            if g.startswith(("llvm.memcpy", "llvm.memmove")):
                wr(args[0])
                ch = False
                for a in args[0]:
                    for b in args[1]:
                        if b[0][0] in "LH" and b[2] is not None and a[2] is not None:
                            for o, vs in list(mem.get(b[0], {}).items()):
                                if o is not None:
                                    ch |= self.put({(a[0], a[1], a[2] + o - b[2])}, vs, mem)
                        elif b[0][0] in "AG" and a[0][0] in "LH" and len(b[1]) < DEPTH and isinstance(b[2], int) and isinstance(a[2], int):
                            n = ins["args"][2][0]
                            size = int(n[2]) if n[0] == "c" else 0
                            if size <= 64:
                                for o in range(0, size, 8):
                                    ch |= self.put({(a[0], a[1], a[2] + o)}, {(b[0], b[1] + (b[2] + o,), 0)}, mem)
                return set(), ch
            if g.startswith("llvm.memset"):
                wr(args[0])
            elif g.startswith("llvm.threadlocal.address"):
                return {(("T", x[0][1]), (), x[2]) for x in args[0] if x[0][0] == "G"}, False
            elif g.startswith(("llvm.launder", "llvm.strip")):
                return args[0], False
            return set(), False
        if self.HEAP.match(dem):
            return {(("H", ins["id"]), (), 0)}, False
        if re.match(r"^(memcpy|memmove|memset|strcpy|strncpy|strcat|sprintf|snprintf|__gmpz_\w+|__gmpn_\w+|F[rq]_raw\w+|F[rq]_\w+)$", g) and args:
            if re.match(r"^__gmpz_(cmp|sgn|get_(ui|si|str|d)|sizeinbase|size|export|tstbit|popcount|probab|fits|out|even|odd|perfect|scan)|^__gmpn_(cmp|zero_p|get)|^F[rq]_(rawIsEq|rawIsZero|isTrue|toInt|fail|rawCmp)|^__gmpz_inits$", g):
                return set(), False
            wr(args[0])
            if g in ("__gmpn_tdiv_qr", "__gmpz_tdiv_qr", "__gmpz_fdiv_qr", "__gmpn_sqrtrem", "__gmpn_gcdext", "__gmpz_gcdext") and len(args) > 1:
                wr(args[1])
            return (args[0] if ins["ty"] == "p" else set()), False
        if g.startswith("_Z"):
            cls, nm, ps, q = split_dem(dem)
            k = 0
            if ins["args"] and len(ins["args"]) == len(ps) + 1:
                k = 1
                const = q.startswith("const") or g.startswith("_ZNK")
                acc = nm in ("begin", "end", "data", "operator[]", "at", "front", "back", "c_str", "get", "native_handle", "rdbuf", "operator*", "operator->", "base", "_M_data", "_M_local_data", "size", "length")
                if not const and not acc and nm not in cls[-1:] and not nm.startswith("~"):
                    wr(args[0])
                if acc and ins["ty"] == "p":
                    return shift(args[0], None), False
            if len(ins["args"]) == len(ps) + k:
                for j, t in enumerate(ps):
                    if t.endswith("&") and not t.endswith("&&") and not t.endswith("const&") and "*" not in t[-2:]:
                        wr(args[j + k])
        return set(), False

    # ---- program
    def guards(self, name):
        f = self.fns[name]
        out = set()
        bl = f["blocks"]
        rel = {bi for bi, b in enumerate(bl) for ins in b if ins["op"] in ("call", "invoke") and ins["callee"][0] == "f" and ins["callee"][1] == "__cxa_guard_release"}

        def succ(bi):
            t = bl[bi][-1]
            return list(t.get("succ", [])) + [x for x in (t.get("normal"), t.get("unwind"), t.get("default")) if x is not None] + [c[1] for c in t.get("cases", [])]
        for bi, b in enumerate(bl):
            for ins in b:
                if ins["op"] in ("call", "invoke") and ins["callee"][0] == "f" and ins["callee"][1] == "__cxa_guard_acquire":
                    todo = succ(bi)[:1]
                    while todo:
                        x = todo.pop()
                        if x in out:
                            continue
                        out.add(x)
                        if x not in rel:
                            todo += succ(x)
        return out

    def run(self):
        names = [n for n, f in self.fns.items() if not f["decl"]]
        for n in names:
            g = self.guards(n)
            if g:
                self.guard[n] = g
        # callees first
        refs = {n: {i["callee"][1] for b in self.fns[n]["blocks"] for i in b if i["op"] in ("call", "invoke") and i["callee"][0] == "f"} for n in names}
        users = {}
        for n in names:
            for b in self.fns[n]["blocks"]:
                for i in b:
                    if i["op"] in ("call", "invoke"):
                        for x in [i["callee"]] + [a[0] for a in i["args"]]:
                            if x[0] == "f":
                                users.setdefault(x[1], set()).add(n)
        order, seen = [], set()
        for r in names:
            st = [(r, 0)]
            while st:
                n, ph = st.pop()
                if ph:
                    order.append(n)
                    continue
                if n in seen:
                    continue
                seen.add(n)
                st.append((n, 1))
                st += [(c, 0) for c in refs[n] if c in refs and c not in seen]
        from collections import deque
        work, inq, cnt = deque(order), set(order), {}
        while work:
            n = work.popleft()
            inq.discard(n)
            cnt[n] = cnt.get(n, 0) + 1
            if self.function(n) and cnt[n] < 12:
                for u in users.get(n, ()):
                    if u in refs and u not in inq:
                        inq.add(u)
                        work.append(u)
        self.users = users
        self.rounds = sum(cnt.values())
