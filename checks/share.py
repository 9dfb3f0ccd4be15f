"""Operations keep nothing between calls: interprocedural write effects of the generated library, the templates instantiated
over it and the number and text helpers.  A write to an object that outlives the call and that the caller did not pass for
that purpose (static storage, members of the field, curve or transform object) is state shared by all callers."""
import os, re, subprocess, json
import absint
from absint import irdump_path
from effects import Effects, split_dem
from fieldlib import Rendered
from report import REPO, ROOT, parallel

FLAGS = ["-std=c++11", "-O0", "-fopenmp", "-DUSE_OPENMP", "-Xclang", "-disable-O0-optnone", "-g", "-fno-vectorize", "-fdebug-compilation-dir=/none", "-emit-llvm", "-c", "-w"]
LIBC = {"strtok", "rand", "srand", "random", "srandom", "drand48", "lrand48", "srand48", "localtime", "gmtime", "asctime", "ctime", "tmpnam", "setlocale", "ecvt", "fcvt"}
IMMUTABLE = {"RawFr": "field", "RawFq": "field", "F2Field": "tower field", "F6Field": "tower field", "F12Field": "tower field", "Curve": "curve", "FFT": "transform"}


def build(backend):
    fr, fq = Rendered("bn254r"), Rendered("bn254q", "Fq")
    d = os.path.join(absint.WORK, "share_%s_%d" % (backend, os.getpid()))
    os.makedirs(d, exist_ok=True)
    inc = ["-I" + REPO + "/c", "-I" + fr.dir, "-I" + fq.dir, "-I" + ROOT + "/drivers/stubs"]
    src = [(ROOT + "/drivers/shared.cpp", [])]
    src += [(os.path.join(REPO, "c", x + ".cpp"), []) for x in ("naf", "misc", "splitparstr", "alt_bn128", "binfile_utils", "wtns_utils", "zkey_utils")]
    for r in (fr, fq):
        src.append((r.path(".cpp"), []))
        if backend == "portable":
            src += [(r.path("_generic.cpp"), []), (r.path("_raw_generic.cpp"), [])]
    arch = ["-DUSE_ASM", "-DARCH_X86_64"] if backend == "x86" else []
    bcs, bad = [], []
    for i, (s, extra) in enumerate(src):
        o = os.path.join(d, "%d.bc" % i)
        r = subprocess.run(["clang++-18"] + FLAGS + arch + inc + ["-o", o, s], capture_output=True, text=True)
        if r.returncode:
            bad.append((os.path.basename(s), r.stderr[-600:]))
        else:
            bcs.append(o)
    out = os.path.join(d, "all.bc")
    r = subprocess.run(["/usr/lib/llvm-18/bin/llvm-link"] + bcs + ["-o", out], capture_output=True, text=True)
    if r.returncode:
        raise absint.CompileError("llvm-link: " + r.stderr[-1500:])
    o2 = os.path.join(d, "all2.bc")
    subprocess.run(["/usr/lib/llvm-18/bin/opt", "-passes=mem2reg,simplifycfg<no-switch-to-lookup>", out, "-o", o2], check=True)
    r = subprocess.run([irdump_path(), o2], capture_output=True, text=True, check=True)
    for f in os.listdir(d):
        os.unlink(os.path.join(d, f))
    os.rmdir(d)
    return json.loads(r.stdout), bad


def origin(f):
    """the file of a function when it belongs to the repository or is generated by it"""
    p = f.get("file", "")
    if p.startswith(REPO + "/"):
        return os.path.relpath(p, REPO)
    if "/gen_bn254" in p:
        b = os.path.basename(p)
        return "src/" + re.sub(r"^f[rq]", "fr", b) + ".ejs"
    return None


def short(dem):
    cls, nm, ps, q = split_dem(dem)
    return "::".join([c for c in cls if c][-2:] + [nm])


class Program:
    def __init__(self, mod):
        self.mod = mod
        self.fns = mod["functions"]
        self.E = Effects(mod)
        self.roots()

    def roots(self):
        """functions that run only while static objects or instances are being set up"""
        init = set()
        for n, f in self.fns.items():
            if f["decl"]:
                continue
            cls, nm, ps, q = split_dem(f["dem"])
            if n.startswith(("_GLOBAL__sub_I", "__cxx_global_var_init", "_GLOBAL__I")) or "__cxx_global_var_init" in n or f["dem"].startswith("__cxx_global"):
                init.add(n)
            elif cls and (nm == cls[-1] or nm.startswith("~")):
                init.add(n)
        self.ctor = set(init)
        guarded = set()
        for n, bl in self.E.guard.items():
            for bi in bl:
                for i in self.fns[n]["blocks"][bi]:
                    if i["op"] in ("call", "invoke") and i["callee"][0] == "f":
                        guarded.add((n, i["callee"][1]))
        callers = {}
        for n, f in self.fns.items():
            if f["decl"]:
                continue
            for bi, b in enumerate(f["blocks"]):
                for i in b:
                    if i["op"] in ("call", "invoke"):
                        for x in [i["callee"]] + [a[0] for a in i["args"]]:
                            if x[0] == "f":
                                callers.setdefault(x[1], set()).add((n, bi in self.E.guard.get(n, ())))
        self.callers = callers
        # greatest set of functions all of whose callers are set-up code
        cand = {n for n, f in self.fns.items() if not f["decl"] and callers.get(n)} | init
        ch = True
        while ch:
            ch = False
            for n in list(cand - init):
                if any(not g and c not in cand for c, g in callers[n]):
                    cand.discard(n)
                    ch = True
        self.init_only = cand
        reach, todo = set(), list(init) + [c for _, c in guarded]
        while todo:
            n = todo.pop()
            if n in reach or n not in self.fns or self.fns[n]["decl"]:
                continue
            reach.add(n)
            todo += [i["callee"][1] for b in self.fns[n]["blocks"] for i in b if i["op"] in ("call", "invoke") and i["callee"][0] == "f"]
        self.init_reach = reach

    def method(self, n):
        """(class, index of this) when n is a member function of a class whose objects are shared"""
        f = self.fns[n]
        cls, nm, ps, q = split_dem(f["dem"])
        if not cls or cls[-1] not in IMMUTABLE:
            return None
        a = f["args"]
        k = 1 if a and a[0][2] == "sret" else 0
        if len(a) - k != len(ps) + 1:
            return None
        return cls[-1], k

    def guarded_by_lock(self, n):
        seen, todo = set(), [n]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x in self.E.sync:
                return True
            todo += [c for c, _ in self.callers.get(x, ())]
        return False


def line(w):
    p, l = w
    if p.startswith(REPO + "/"):
        p = os.path.relpath(p, REPO)
    elif "/gen_" in p:
        p = os.path.basename(p)
    return "%s:%s" % (p, l)


def analyse(check, tier, backend):
    mod, bad = build(backend)
    for s, e in bad:
        check.fail("%s does not compile: %s" % (s, e))
    P = Program(mod)
    E = P.E
    G = mod["globals"]
    own = {g for g, d in G.items() if "init" in d and not d["const"] and not g.startswith((".", "__dso", "_ZGV", "_ZStL", "_ZTV", "_ZTI", "_ZTS", "llvm.", "_ZNSt", "_ZSt"))}
    read = {}
    for n, s in E.summ.items():
        if n in P.init_only:
            continue
        for g in s[1]:
            read.setdefault(g, set()).add(n)
    check.count("functions analysed (%s)" % backend, len(E.summ))
    check.count("static objects (%s)" % backend, len(own))
    stored = {}
    for n, (writes, _, _, _) in sorted(E.summ.items()):
        f = P.fns[n]
        src = origin(f)
        if src is None:
            # library code instantiated for a static object is reported where the repository calls it
            continue
        name = short(f["dem"])
        key = "%s %s/%d" % (backend, name, len(f["args"]))
        # -- static storage
        mine = {}
        for (o, ing, at), where in writes.items():
            if o[0][0] == "G" and o[0][1] in own and not ing:
                mine.setdefault(o[0][1], []).append((at, where))
        if n in P.ctor or n in P.init_only:
            for g in mine:
                stored.setdefault(g, []).append(name)
            check.ok("static", key)
        elif not mine:
            check.ok("static", key)
        else:
            for g, ws in mine.items():
                gname = re.sub(r"^_ZL?\d*|^_ZZ?", "", g)
                where = line(([w for a, w in ws if not a] or [ws[0][1]])[0])
                if all(a == "sync" for a, _ in ws):
                    check.ok("static", key + " " + gname)
                elif all(a for a, _ in ws):
                    check.undecided("static", key + " " + gname, "%s: ordered (atomic or locked) update of static %s" % (where, gname))
                elif P.guarded_by_lock(n):
                    check.undecided("static", key + " " + gname, "%s: static %s written under a lock" % (where, gname))
                elif n in P.init_reach and not any(o[0][0] == "A" for (o, _, _) in writes):
                    check.undecided("static", key + " " + gname, "%s: set-up code writing static %s is also called from operations" % (where, gname))
                elif not read.get(g):
                    check.undecided("static", key + " " + gname, "%s: static %s is written and never read" % (where, gname))
                else:
                    check.bad("static", "%s %s" % (key, gname), where, "%s writes static object %s, which every caller shares and %s reads" % (name, demangle(P, g), short(P.fns[sorted(read[g])[0]]["dem"])))
        # -- members of shared objects
        m = P.method(n)
        if m:
            cls, k = m
            mine = {}
            for (o, ing, at), where in writes.items():
                if o[0] == ("A", k):
                    mine.setdefault((o[1], o[2]), []).append((at, where))
            if n in P.ctor or not mine:
                check.ok("members", key)
            else:
                (path, off), ws = sorted(mine.items(), key=str)[0]
                allw = [x for v in mine.values() for x in v]
                plain = [(po, w) for po, v in sorted(mine.items(), key=str) for a, w in v if not a]
                if plain:
                    (path, off), where = plain[0]
                else:
                    where = line(ws[0][1])
                where = where if isinstance(where, str) else line(where)
                if n in P.init_only or all(a == "sync" for a, _ in allw):
                    check.ok("members", key)
                elif all(a for v in mine.values() for a, _ in v):
                    check.undecided("members", key, "%s: ordered (atomic or locked) update of a member" % where)
                elif P.guarded_by_lock(n):
                    check.undecided("members", key, "%s: member written under a lock" % where)
                elif n in P.init_reach and not any(o[0][0] == "A" and o[0] != ("A", k) for (o, _, _) in writes):
                    check.undecided("members", key, "%s: set-up code is also called from operations" % where)
                else:
                    check.bad("members", key, where, "%s writes the %s object it is called on (%s), which concurrent callers share" % (name, IMMUTABLE[cls], "offset %s" % (off if not path else "through members %s" % (path,))))
        # -- operands
        outs = outputs(n, f)
        if outs is not None:
            cls, nm, ps, q = split_dem(f["dem"])
            a = f["args"]
            first = (1 if a and a[0][2] == "sret" else 0)
            first += 1 if len(a) - first == len(ps) + 1 else 0
            hit = sorted((o[0][1] - first, line(w)) for (o, ing, at), w in writes.items() if o[0][0] == "A" and o[0][1] >= first and o[0][1] - first not in outs)
            check.check("operands", key, not hit, hit[0][1] if hit else "", "%s writes its operand number %d, which is not its result" % (name, hit[0][0] + 1 if hit else 0))
        # -- hidden state of the C library
        calls = [(i, P.fns[i["callee"][1]]) for b in f["blocks"] for i in b if i["op"] in ("call", "invoke") and i["callee"][0] == "f"]
        hid = [(i, d) for i, d in calls if i["callee"][1] in LIBC]
        for i, d in hid:
            check.bad("libc", "%s %s" % (key, i["callee"][1]), "%s:%s" % (src, i.get("line", 0)), "%s calls %s, which keeps state shared by all threads" % (name, i["callee"][1]))
        if not hid:
            check.ok("libc", key)
        check.count("repository functions (%s)" % backend)
    check.notes.append("%s: static objects set up by initialisers only: %s" % (backend, ", ".join("%s (%s)" % (demangle(P, g), ", ".join(sorted(set(v))[:2])) for g, v in sorted(stored.items()))))


METHODS = re.compile(r"^(add|sub|mul|square|neg|dbl|inv|div|mulScalar|exp|copy|toMontgomery|fromMontgomery|fromString|fromUI|fromMpz|toMpz|set|mul1|mulByScalar|multiMulByScalar|multiMulByScalarMSM|fft|ifft|reversePermutation|add1|expn)$")
PURE = re.compile(r"^(eq|isZero|isOne|toString|root|log2)$")


def outputs(n, f):
    """the parameters an operation may write, by the operation's documented meaning; None for anything else"""
    cls, nm, ps, q = split_dem(f["dem"])
    if f["dem"].endswith("const") or "lambda" in f["dem"] or "omp_outlined" in f["dem"]:
        return None
    if cls and cls[-1] in IMMUTABLE:
        if METHODS.match(nm) and f["ret"] == "v":
            return {0}
        return {"toRprBE": {1}, "fromRprBE": {0}}.get(nm, set() if PURE.match(nm) else {0} if METHODS.match(nm) else None)
    if not cls:
        if nm == "nafMulByScalar":
            return {1}
        if nm in ("buildNaf", "removePars"):
            return {0}
        if nm in ("log2", "splitParStr"):
            return set()
        m = re.match(r"^F[rq]_(raw)?(add|sub|mul|neg|square|lt|leq|gt|geq|eq|neq|land|lor|lnot|band|bor|bxor|bnot|shl|shr|idiv|mod|inv|div|pow|copy|copyn|toNormal|toLongNormal|toMontgomery|Add|Sub|MMul|MMul1|MSquare|Neg|ToMontgomery|FromMontgomery|Copy|Shl|Shr|And|Or|Xor|Not)$", nm)
        if m:
            return {0}
        if re.match(r"^F[rq]_(isTrue|toInt|rawIsEq|rawIsZero|element2str)$", nm):
            return set()
    return None


def demangle(P, g):
    r = subprocess.run(["c++filt", g], capture_output=True, text=True)
    return r.stdout.strip() or g


def assembly(check, tier, key):
    from asm import parse_nasm
    r = Rendered(key)
    for be, suffix in (("x86", ".asm"), ("AArch64", "_raw_arm64.s")):
        text = open(r.path(suffix)).read()
        labels = data_labels(text, be)
        n = 0
        for ln, fn, dest in asm_stores(text, be):
            n += 1
            hit = [w for w in re.findall(r"[A-Za-z_.$][\w.$]*", dest) if w in labels]
            check.check("assembly", "%s %s %s:%s" % (key, be, fn, n), not hit, "%s:%d" % (os.path.basename(r.path(suffix)), ln),
                        "%s stores to the static object %s" % (fn, hit[:1]))
        check.count("stores in %s routines (%s)" % (be, key), n)


def data_labels(text, be):
    sec, out = "text", set()
    for l in text.split("\n"):
        l = re.sub(r";.*|//.*", "", l).strip()
        m = re.match(r"\.?(section\s+)?\.?(data|text|bss|rodata)\b", l)
        if m:
            sec = m.group(2)
        m = re.match(r"([A-Za-z_.$][\w.$]*)\s*(:|\s+d[bwdq]\b|\s+res[bwdq]\b)", l)
        if m and sec != "text":
            out.add(m.group(1))
    return out


def asm_stores(text, be):
    fn = "?"
    for ln, l in enumerate(text.split("\n"), 1):
        l = re.sub(r";.*|//.*", "", l).strip()
        m = re.match(r"([A-Za-z_.$][\w.$]*):", l)
        if m:
            fn = m.group(1) if not re.search(r"\d", m.group(1)[:1]) else fn
            l = l[m.end():].strip()
        if be == "x86":
            m = re.match(r"(\w+)\s+(?:\w+\s+)?\[([^\]]*)\]\s*(,|$)", l)
            if m and m.group(1) not in ("cmp", "test", "push", "jmp", "call", "bt"):
                yield ln, fn, m.group(2)
        else:
            m = re.match(r"(str|stp|stur|stlr|strb|strh)\s+.*\[([^\]]*)\]", l)
            if m:
                yield ln, fn, m.group(2)


def unit(check, tier, u):
    if u in ("portable", "x86"):
        analyse(check, tier, u)
    else:
        assembly(check, tier, u)


def share(check, tier):
    check.rule("static", "no function outside set-up code writes an object with static storage duration", 400)
    check.rule("members", "no operation of a field, tower, curve or transform object writes the object itself or what it refers to", 250)
    check.rule("operands", "an operation writes no parameter other than its result", 250)
    check.rule("libc", "no function calls a C library function that keeps state between calls", 400)
    check.rule("assembly", "no assembly routine stores to static data", 100)
    parallel(check, unit, ["portable", "x86", "bn254r", "secp256k1", "goldilocks"] + (["bls381q", "p192", "p61", "m127"] if tier == "thorough" else []))
    check.assume.append("Library functions without a body here write what their declaration says they may write; calls through function objects are analysed as functions of their own.")
