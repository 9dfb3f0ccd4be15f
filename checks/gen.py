"""P17: the generator's output as a whole: complete on every back end, right constants, and written where it belongs."""
import json, os, posixpath, re, subprocess
import absint
from fieldlib import Rendered, PRIMES
from report import REPO, ROOT, parallel

CONFIGS = {
    "x86-64": ((".asm", ".cpp"), ("-DUSE_ASM", "-DARCH_X86_64")),
    "AArch64": (("_raw_arm64.s", ".cpp", "_generic.cpp", "_raw_generic.cpp"), ("-DUSE_ASM", "-DARCH_ARM64")),
    "portable": ((".cpp", "_generic.cpp", "_raw_generic.cpp"), ()),
}


def prime(n):
    if n < 4 or n % 2 == 0:
        return n in (2, 3)
    d, s = n - 1, 0
    while d % 2 == 0:
        d, s = d // 2, s + 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % a == 0:
            return n == a
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def near(n, step):
    n |= 1
    while not prime(n):
        n += step
    return n


def shapes(tier):
    """moduli at the edges of the word grid: smallest and largest of a length, top words around half a word"""
    out = [("Fr", PRIMES["bn254r"]), ("Fq", PRIMES["secp256k1"]), ("FBig", PRIMES["goldilocks"]), ("F1", PRIMES["m127"])]
    lens = (33, 64, 65, 128, 129, 192, 255, 256, 257, 384) if tier == "quick" else (5, 31, 33, 61, 63, 64, 65, 66, 127, 128, 129, 191, 192, 193, 253, 254, 255, 256, 257, 319, 320, 321, 381, 383, 384, 385, 512, 521, 640, 753, 768)
    for b in lens:
        out.append(("Fr", near((1 << b) - 1, -2)))
        if tier == "thorough":
            out.append(("Fq", near((1 << (b - 1)) + 1, 2)))
    if tier == "thorough":
        for n in (1, 2, 3, 4, 6):
            for t in ((1 << 63) - 1, (1 << 63) - 2, 1 << 63, (1 << 62), 3 << 61):
                out.append(("Ft", near((t << (64 * (n - 1))) + 1, 2)))
    seen, res = set(), []
    for n, q in out:
        if q not in seen:
            seen.add(q)
            res.append((n, q))
    return res


# ---------------------------------------------------------------- one configuration of one modulus
def run(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, timeout=200, **k)


def symbols(o):
    r = run(["nm", o])
    if r.returncode:
        raise RuntimeError("nm: " + r.stderr[-300:])
    out = []
    for l in r.stdout.split("\n"):
        w = l.split()
        if len(w) == 2:
            out.append((w[1], w[0], None))
        elif len(w) == 3:
            out.append((w[2], w[1], int(w[0], 16)))
    return out


_lib = None


def library():
    global _lib
    if _lib is None:
        _lib = set()
        for l in ("libgmp.so", "libstdc++.so", "libc.so.6", "libm.so.6", "libgcc_s.so.1"):
            p = run(["g++", "-print-file-name=" + l]).stdout.strip()
            r = run(["nm", "-D", "--defined-only", p])
            for x in r.stdout.split("\n"):
                w = x.split()
                if w:
                    _lib.add(w[-1].split("@")[0])
    return _lib


def declared(ren, flags):
    """(mangled name, shown name, line) of what the public header declares and does not define itself"""
    nm = ren.name
    tu = os.path.join(ren.dir, "decl_%d.cpp" % os.getpid())
    with open(tu, "w") as f:
        f.write('#include "%s"\n' % ren.path(".hpp"))
    out = {}
    for flt in (nm + "_", "Raw" + nm):
        r = run(["clang++-18", "-std=c++11", "-fsyntax-only", "-w", "-I", ren.dir, "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=" + flt, tu] + list(flags))
        if r.returncode:
            return None, r.stderr[-600:]
        t, dec, i = r.stdout, json.JSONDecoder(), 0

        def visit(d, cls):
            if d.get("isImplicit"):
                return
            k = d.get("kind")
            if k == "CXXRecordDecl":
                for x in d.get("inner", []):
                    visit(x, True)
            elif k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl"):
                if not any(x.get("kind") == "CompoundStmt" for x in d.get("inner", [])) and not d.get("explicitlyDeleted") and not d.get("pure"):
                    m = d.get("mangledName", "")
                    if m and ("Raw" + nm in m or nm + "_" in m):
                        out[m] = d.get("name", m)
            elif k == "VarDecl":
                if d.get("mangledName") and (d.get("storageClass") == "extern" or (d.get("storageClass") == "static" and cls and not any(x.get("kind", "").endswith(("Literal", "Expr")) for x in d.get("inner", [])))):
                    out[d["mangledName"]] = d.get("name")
        while i < len(t):
            j = t.find("{", i)
            if j < 0:
                break
            d, i = dec.raw_decode(t, j)
            visit(d, False)
    return out, ""


def asserts(ren, flags):
    nm, n = ren.name, ren.n
    A = [("the number of words", "%s_N64 == %d" % (nm, n)),
         ("the size of a raw element", "sizeof(%sRawElement) == %d" % (nm, 8 * n)),
         ("the size of a tagged element", "sizeof(%sElement) == %d" % (nm, 8 * n + 8)),
         ("the place of the short value", "offsetof(%sElement, shortVal) == 0 && sizeof(((%sElement*)0)->shortVal) == 4" % (nm, nm)),
         ("the place of the type", "offsetof(%sElement, type) == 4 && sizeof(((%sElement*)0)->type) == 4" % (nm, nm)),
         ("the place of the words", "offsetof(%sElement, longVal) == 8" % nm),
         ("the class's number of words", "Raw%s::N64 == %d" % (nm, n)),
         ("the class's number of bits", "Raw%s::MaxBits == %d" % (nm, ren.bits)),
         ("the size of a class element", "sizeof(Raw%s::Element) == %d" % (nm, 8 * n)),
         ("the short tag", "%s_SHORT == 0u" % nm),
         ("the Montgomery short tag", "%s_SHORTMONTGOMERY == 0x40000000u" % nm),
         ("the long tag", "%s_LONG == 0x80000000u" % nm),
         ("the Montgomery long tag", "%s_LONGMONTGOMERY == 0xC0000000u" % nm)]
    tu = os.path.join(ren.dir, "layout_%d.cpp" % os.getpid())
    with open(tu, "w") as f:
        f.write('#include <cstddef>\n#include "%s"\n' % ren.path(".hpp"))
        for i, (_, c) in enumerate(A):
            f.write('static_assert(%s, "WITNESS%d");\n' % (c, i))
    r = run(["clang++-18", "-std=c++11", "-fsyntax-only", "-w", "-ferror-limit=0", "-I", ren.dir, tu] + list(flags))
    bad = set(int(x) for x in re.findall(r"WITNESS(\d+)", r.stderr) if "static assertion failed" in r.stderr)
    other = [l for l in r.stderr.split("\n") if "error:" in l and "WITNESS" not in l]
    return A, bad, other, r.stderr


def unit(check, tier, u):
    name, q, cfg = u
    try:
        ren = Rendered("%x" % q if q.bit_length() < 200 else "h%x_%d" % (q >> (q.bit_length() - 40), q % 1000003), name, q)
    except RuntimeError as e:
        check.bad("complete", "%s %s generate" % (name, hex(q)), "src/buildzqfield.js", "the generator fails for a prime it should support: " + str(e)[-300:])
        return
    suf, flags = CONFIGS[cfg]
    tag = "%s %s %d bits %s" % (cfg, name, q.bit_length(), hex(q)[-8:])
    objs = {}
    for s in suf:
        o = os.path.join(ren.dir, "o_%s%s_%d.o" % (cfg.replace("-", ""), s.replace(".", "_"), os.getpid()))
        p = ren.path(s)
        if not os.path.exists(p):
            check.bad("complete", tag + s, "src/buildzqfield.js buildField", "no text is generated for the file %s%s" % (name.lower(), s))
            return
        if s == ".asm":
            r = run(["nasm", "-felf64", p, "-o", o])
        elif s.endswith(".s"):
            r = run(["clang-18", "--target=aarch64-linux-gnu", "-c", p, "-o", o])
        else:
            r = run(["clang++-18", "-std=c++11", "-O0", "-w", "-I", ren.dir, "-c", p, "-o", o] + list(flags))
        check.check("complete", tag + " builds " + s, r.returncode == 0, "generated " + name.lower() + s, "the generated file is refused: " + r.stderr.strip()[:300])
        if r.returncode:
            return
        objs[s] = o
    defs, need = {}, {}
    for s, o in objs.items():
        for nm, k, v in symbols(o):
            if k == "U":
                need.setdefault(nm, []).append(s)
            elif k.isupper() and k not in ("V", "W"):
                defs.setdefault(nm, []).append((s, k, v))
            elif k in ("V", "W"):
                defs.setdefault(nm, [])
    for nm, where in sorted(defs.items()):
        check.check("complete", "%s one %s" % (tag, nm), len(where) <= 1, "generated " + " and ".join(name.lower() + x[0] for x in where),
                    "%s is defined more than once, so the library cannot be linked" % nm)
    for nm, where in sorted(need.items()):
        if nm in defs or nm in library() or re.match(r"^(_GLOBAL_OFFSET|__dso_handle|atexit|__stack_chk|_DYNAMIC)", nm):
            check.ok("complete", "%s needs %s" % (tag, nm))
        elif name + "_" in nm or "Raw" + name in nm or nm.startswith(name):
            check.bad("complete", "%s needs %s" % (tag, nm), "generated " + name.lower() + where[0], "uses %s, which no file of this configuration defines" % nm)
        else:
            check.undecided("complete", "%s needs %s" % (tag, nm), "symbol of an unknown library")
    d, err = declared(ren, flags)
    if d is None:
        check.bad("complete", tag + " header", "generated " + name.lower() + ".hpp", "the header is refused: " + err[:300])
        return
    if len(d) < 40:
        check.undecided("complete", tag + " header", "only %d declarations found" % len(d))
    for m, shown in sorted(d.items()):
        check.check("complete", "%s offers %s" % (tag, shown + " " + m), m in defs, "generated " + name.lower() + ".hpp",
                    "%s is declared to users with a linkage name (%s) that no file of this configuration defines" % (shown, m))
    A, bad, other, full = asserts(ren, flags)
    if other:
        check.undecided("layout", tag, other[0][:200])
    for i, (what, c) in enumerate(A):
        check.check("layout", "%s %s" % (tag, what), i not in bad, "generated " + name.lower() + "_element.hpp / .hpp", "%s is not %s" % (what, c))
    # public constants, read from the data of the assembled or compiled file
    want = {"q": q, "R2": pow(2, 128 * ren.n, q), "R3": pow(2, 192 * ren.n, q)}
    raw = {}
    for k, v in want.items():
        nm = name + "_" + k
        w = defs.get(nm)
        if not w:
            continue  # already reported
        s, kind, off = w[0]
        if kind != "D":
            check.undecided("constants", "%s %s" % (tag, nm), "not in the data section")
            continue
        if s not in raw:
            b = objs[s] + ".data"
            run(["objcopy", "-O", "binary", "--only-section=.data", "--set-section-flags", ".data=alloc,load,contents", objs[s], b])
            raw[s] = open(b, "rb").read() if os.path.exists(b) else b""
        e = raw[s][off:off + 8 + 8 * ren.n]
        if len(e) < 8 + 8 * ren.n:
            check.undecided("constants", "%s %s" % (tag, nm), "data not found")
            continue
        ty, x = int.from_bytes(e[4:8], "little"), int.from_bytes(e[8:], "little")
        check.check("constants", "%s %s" % (tag, nm), ty == 0x80000000 and x == v, "generated %s%s, %s" % (name.lower(), s, nm),
                    "the constant is type %#x value %d, not a long element of value %d" % (ty, x, v))
    for o in objs.values():
        os.unlink(o)


# ---------------------------------------------------------------- what is written where
class Unknown(Exception):
    pass


def parse_term(t):
    """the printed terms of tools/jsflow.js"""
    pos = [0]

    def term():
        i = pos[0]
        if t[i] == '"':
            v, e = json.JSONDecoder().raw_decode(t, i)
            pos[0] = e
            return v
        m = re.compile(r"[^()\[\],\"]+").match(t, i)
        if not m:
            raise Unknown(t[i:i + 20])
        f = m.group()
        pos[0] = m.end()
        if pos[0] < len(t) and t[pos[0]] == "(":
            pos[0] += 1
            args = []
            while t[pos[0]] != ")":
                args.append(term())
                if t[pos[0]] == ",":
                    pos[0] += 1
            pos[0] += 1
            return (f, args)
        return (f, [])
    return term()


def value(t, env):
    if isinstance(t, str):
        return t
    f, a = t
    if f == "opt":
        return env[a[0]]
    v = [value(x, env) for x in a] if f != "str" and not f.startswith("get:") else []
    if f == "cat":
        return "".join(v)
    if f == "str":
        x = value(a[1], env)
        return x.lower() if a[0] == "toLowerCase" else x.upper()
    if f in ("path.join", "path.resolve", "path.normalize"):
        return posixpath.normpath(posixpath.join(*v)) if f != "path.join" else posixpath.normpath("/".join(x for x in v if x))
    if f == "path.dirname":
        return posixpath.dirname(v[0]) or "."
    if f == "path.basename":
        b = posixpath.basename(v[0])
        return b[:-len(v[1])] if len(v) > 1 and b.endswith(v[1]) and b != v[1] else b
    if f.startswith("get:") and isinstance(a[0], tuple) and a[0][0] == "path.parse":
        d, b = posixpath.split(value(a[0][1][0], env))
        return {"dir": d, "base": b, "name": posixpath.splitext(b)[0], "ext": posixpath.splitext(b)[1]}[f[4:]]
    if f == "path.extname":
        return posixpath.splitext(v[0])[1]
    raise Unknown(f)


DEFAULT = {"fr.asm.ejs": ".asm", "fr.hpp.ejs": ".hpp", "fr.cpp.ejs": ".cpp", "fr_element.hpp.ejs": "_element.hpp", "fr_generic.cpp.ejs": "_generic.cpp",
           "fr_raw_generic.cpp.ejs": "_raw_generic.cpp", "fr_raw_arm64.s.ejs": "_raw_arm64.s"}
OPTION = {"oa": "fr.asm.ejs", "oh": "fr.hpp.ejs", "oc": "fr.cpp.ejs"}
ENVS = [{"q": "101", "name": "Fr", "oc": "out/fr.cpp", "oh": "inc/fr.hpp", "oa": "lib/fr.asm"},
        {"q": "101", "name": "MyField", "oc": "a.cc", "oh": "b.h", "oa": "c.s"},
        {"q": "101", "name": "Fr", "oc": "/abs/dir.d/x.cpp", "oh": "/abs/dir.d/x.hpp", "oa": "/abs/dir.d/x.asm"},
        {"q": "101", "name": "Fr", "oc": "fr.cpp", "oh": "fr.hpp", "oa": "fr.asm"}]


def jsflow():
    r = run(["node", os.path.join(ROOT, "tools", "jsflow.js"), REPO])
    if r.returncode:
        raise RuntimeError("jsflow: " + r.stderr[-600:])
    return json.loads(r.stdout)


def command_line(check, flow):
    for c in flow["cli"]:
        tag = "options " + (" ".join(c["opts"]) or "none")
        if "undecided" in c:
            check.undecided("files", tag, c["undecided"])
            continue
        at = "src/buildzqfield.js"
        by = {}
        undec = False
        for w in c["writes"]:
            t = w["content"].get("template")
            if t is None:
                check.undecided("files", tag + " line %d" % w["line"], "text of unknown origin: " + w["content"].get("other", "?")[:120])
                undec = True
                continue
            by.setdefault(t, []).append(w)
            d = w["content"]["data"]
            if 'opt("q")' not in d or 'opt("name")' not in d:
                check.undecided("files", tag + " data of " + t, "the text is rendered from " + d[:120])
        for t in sorted(DEFAULT):
            if t not in by and undec:
                continue
            check.check("files", "%s writes %s" % (tag, t), len(by.get(t, [])) >= 1, at, "the text of %s is not written to any file" % t)
        if not c["writes"]:
            check.undecided("files", tag, "no file is written")
            continue
        # different texts never land in the same file
        for i, a in enumerate(c["writes"]):
            for b in c["writes"][i + 1:]:
                ta, tb = a["content"].get("template"), b["content"].get("template")
                if ta is None or tb is None or ta == tb:
                    continue
                same = a["file"] == b["file"]
                if not same:
                    try:
                        same = any(posixpath.normpath(value(parse_term(a["file"]), e)) == posixpath.normpath(value(parse_term(b["file"]), e)) for e in ENVS)
                    except (Unknown, KeyError, IndexError):
                        same = False
                check.check("files", "%s %s apart from %s" % (tag, ta, tb), not same, "%s:%d and :%d" % (at, a["line"], b["line"]),
                            "both %s and %s are written to the same file (%s), so one of them is lost" % (ta, tb, a["file"][:120]))
        # names
        for t, ws in sorted(by.items()):
            if t not in DEFAULT:
                continue
            o = next((k for k in OPTION if OPTION[k] == t), None)
            for w in ws:
                try:
                    got = [(value(parse_term(w["file"]), e), e) for e in ENVS]
                except (Unknown, KeyError, IndexError) as x:
                    check.undecided("files", "%s name of %s" % (tag, t), "name %s" % w["file"][:120])
                    continue
                if o and o in c["opts"]:
                    check.check("files", "%s name of %s" % (tag, t), all(posixpath.normpath(g) == posixpath.normpath(e[o]) for g, e in got), "%s:%d" % (at, w["line"]),
                                "the option -%s does not name the file of %s: it is %s" % (o, t, w["file"][:120]))
                else:
                    check.check("files", "%s name of %s" % (tag, t), all(posixpath.basename(g) == e["name"].lower() + DEFAULT[t] for g, e in got), "%s:%d" % (at, w["line"]),
                                "%s is written as %s, not under its name <name>%s" % (t, w["file"][:120], DEFAULT[t]))


def includes(check):
    """every generated file includes only generated files under their default names"""
    ren = Rendered("bn254r", "MyField")
    have = set(os.listdir(ren.dir))
    for s in DEFAULT.values():
        if not os.path.exists(ren.path(s)):
            continue
        for x in re.findall(r'^\s*(?:#|%)\s*include\s+"([^"]+)"', ren.text(s), re.M):
            check.check("files", "include %s in %s" % (x, s), x in ["myfield" + y for y in DEFAULT.values()], "generated myfield" + s, "includes %s, which is not generated" % x)
        check.ok("files", "includes of " + s)


SEQ = r"""
const path=require("path");const {bigInt}=require(process.argv[1]);
const build=require(path.join(process.argv[2],"src","buildzqfield.js"));const L=JSON.parse(process.argv[3]);
const one=([q,n])=>build(bigInt(q),n);
(async()=>{const seq=[];for(const x of L)seq.push(await one(x));const con=await Promise.all(L.map(one));process.stdout.write(JSON.stringify({seq,con}));})().catch(e=>{console.error(e.stack);process.exit(1)});
"""


def history(check, flow):
    eff = flow["effects"]
    check.count("functions analysed", eff["functions"])
    A, B = (str(PRIMES["secp256k1"]), "Fq"), (str(PRIMES["goldilocks"]), "Fg")
    L = [A, B, A, (str(PRIMES["bls381q"]), "Fb"), B]
    r = run(["node", "-e", SEQ, os.path.join(ROOT, "tools", "render.js"), REPO, json.dumps(L)])
    if r.returncode:
        check.undecided("history", "repeated generation", r.stderr[-300:])
        return
    d = json.loads(r.stdout)
    sites = "; ".join("%(file)s:%(line)d %(fn)s %(what)s %(name)s" % s for s in eff["sites"]) or "no writing site found"
    for i, j in ((0, 2), (1, 4)):
        for k in sorted(d["seq"][i]):
            same = d["seq"][i][k] == d["seq"][j][k]
            check.check("history", "%s again %s" % (L[i][1], k), same, sites[:400], "generating the same field again in one process gives another text (%s)" % k)
    for i, x in enumerate(L):
        for k in sorted(d["seq"][i]):
            first = d["seq"][[y for y in range(len(L)) if L[y] == x][0]][k]
            check.check("history", "%s at once %d %s" % (x[1], i, k), d["con"][i][k] == first, sites[:400], "generating several fields at the same time gives another text (%s)" % k)
    for f in eff["files"]:
        n = [s for s in eff["sites"] if s["file"] == f]
        if not n:
            check.ok("history", f + " keeps nothing between calls")
        for s in n:
            check.undecided("history", "%(file)s:%(line)d" % s, "%(fn)s %(what)s %(name)s, which outlives the call; the texts generated in sequence agree" % s)


def generator(check, tier):
    check.rule("complete", "in every configuration each file is accepted, every symbol is defined exactly once, and everything the header offers or a file uses is defined under its linkage name", 400)
    check.rule("layout", "sizes, offsets, tags and widths the header states are those of the modulus", 60)
    check.rule("constants", "the public constants are the modulus and the Montgomery constants of it", 20)
    check.rule("files", "every text is written, to its own file, under the name the others refer to, for every combination of options", 60)
    check.rule("history", "no state survives a call: a field's texts do not depend on fields generated before or at the same time", 10)
    check.assume += ["npm's big-integer, ejs and yargs behave as documented (stand-ins are used for them)"]
    flow = jsflow()
    command_line(check, flow)
    includes(check)
    history(check, flow)
    library()
    units = [(n, q, c) for n, q in shapes(tier) for c in CONFIGS]
    for n, q in shapes(tier):       # render first, the configurations share the texts
        pass
    parallel(check, unit, units)
