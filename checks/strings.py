"""Splitting of parenthesised lists (splitParStr): all strings up to a length, one partition per pattern of character classes."""
from absint import *
from cfile import FileMachine, Witness
from report import REPO, ROOT

MOD = {}


def load():
    if "m" not in MOD:
        MOD["m"] = compile_ir(ROOT + "/drivers/split.cpp", ["-I" + REPO + "/c"])
    return MOD["m"]


SPACES = (9, 10, 11, 12, 13, 32)


class SplitMachine(FileMachine):
    MAXDEPTH = 60

    def __init__(self, mod):
        FileMachine.__init__(self, mod)
        self.register(r"^isspace$", self.h_isspace)

    def push(self, s, fname, args, ret=None, unwind=None):
        FileMachine.push(self, s, fname, args, ret, unwind)
        if s.ended is None and len(s.frames) > 40 and sum(f.fn == fname for f in s.frames) > 20:
            s.ended = "endless"
            s.tags["crash"] = (self.where(s), "calls itself again and again without making the text shorter")

    def h_isspace(self, m, s, ins, a):
        v = self.norm(s, a[0], 32, True)
        if isinstance(v, Poly):
            if not self.ge0(s, v - 9) or not self.ge0(s, 32 - v):
                return 0
            return int(not self.ge0(s, v - 14) or self.ge0(s, v - 32))
        return int(v in SPACES)


def strip(t):
    while len(t) > 1 and t[0] == "(":
        d = 0
        for i, c in enumerate(t):
            d += (c == "(") - (c == ")")
            if d == 0:
                break
        if i != len(t) - 1:
            break
        t = t[1:-1]
    return t


def balanced(t):
    d = 0
    for c in t:
        d += (c == "(") - (c == ")")
        if d < 0:
            return False
    return d == 0


def parts(t):
    """the parts of a whitespace-free balanced list: enclosing parentheses removed, then split at top-level commas"""
    t = strip(t)
    out, d, cur = [], 0, []
    for c in t:
        if c == "," and d == 0:
            out.append(cur)
            cur = []
            continue
        d += (c == "(") - (c == ")")
        cur.append(c)
    out.append(cur)
    return [strip(tuple(p)) for p in out]


def unit(check, tier, pats):
    for p in pats:
        pattern(check, p)


CODE = {"(": 40, ")": 41, ",": 44, " ": 32}


def pattern(check, pat):
    n = len(pat)
    mod = load()
    m = SplitMachine(mod)
    s = m.new_state()
    out = s.alloc(24, "result", "input")
    buf = s.alloc(n + 1, "text", "input")
    # white space: a blank at even positions, any of the control characters at odd ones
    chars = [Poly.sym("w%d" % i, 9, 13) if c == " " and i % 2 else CODE[c] if c in CODE else Poly.sym("c%d" % i, 45, 127) for i, c in enumerate(pat)]
    for i, v in enumerate(chars):
        s.mem[buf].cells[i] = (1, v)
    s.mem[buf].cells[n] = (1, 0)
    try:
        res = m.run(s, "drv_split", [Ptr(out, 0), Ptr(buf, 0), n])
    except Undecided as e:
        check.undecided("terminates", 'pattern "%s"' % pat, e)
        return
    check.count("partitions", len(res))
    check.count("instructions", m.nsteps)
    for x in m.unmodelled:
        check.notes.append("not modelled: " + x)
    for r in res:
        cls = [c if isinstance(v, int) or c == " " else v for c, v in zip(pat, chars)]
        text = "".join(c if isinstance(c, str) else "x" for c in cls)
        key = "pattern \"%s\"" % text
        lean = tuple(c for c in cls if c != " ")
        ok = balanced(lean)
        if r.ended == "endless":
            if Witness(m, r).found:
                check.bad("terminates", key, *r.tags["crash"])
            continue
        if r.ended == "crash":
            if Witness(m, r).found:
                check.bad("memory", key, r.tags["crash"][0], r.tags["crash"][1])
            continue
        check.ok("memory", key)
        if r.ended in ("throw", "abort"):
            if not ok and r.ended == "throw":
                check.ok("terminates", key)
                continue
            if Witness(m, r).found:
                check.bad("parts", key, (r.tags.get("exc") or r.tags.get("abort") or (0, ""))[1], "a balanced list is rejected" if ok else "the process is terminated")
            continue
        check.ok("terminates", key)
        if ok:
            want = parts(lean)
            got = read_parts(m, r, out)
            if got is None:
                check.undecided("parts", key, "result not tracked")
            elif len(got) == len(want) and all(len(g) == len(w) and all(same(m, r, a, b) for a, b in zip(g, w)) for g, w in zip(got, want)):
                check.ok("parts", key)
            elif Witness(m, r).found:
                show = lambda ps: "[" + "|".join("".join(c if isinstance(c, str) else chr(c) if isinstance(c, int) else "x" for c in p) for p in ps) + "]"
                check.bad("parts", key, "splitparstr.cpp in splitParStr", "the parts are %s, not %s" % (show(got), show(want)))
            else:
                check.undecided("parts", key, "different parts, but no concrete text found")
        t = r.clone()
        t.ended = None
        for q in m.run(t, "drv_free", [Ptr(out, 0)]):
            lk = m.leaks(q)
            if q.ended == "ret" and not lk:
                check.ok("memory", key + " freed")
            elif q.ended == "crash" or lk:
                if Witness(m, q).found:
                    check.bad("memory", key + " freed", "after the call", "never released: " + ", ".join(lk[:2]) if lk else q.tags["crash"][1])


def same(m, s, a, b):
    if isinstance(b, str):
        b = ord(b)
    d = P(a) - P(b)
    return d.is_zero() or (m.proves(s, d) and m.proves(s, -d))


def read_parts(m, r, out):
    def call(fn, *a):
        t = r.clone()
        t.ended = None
        z = m.run(t, fn, [Ptr(out, 0)] + list(a))
        return (z[0], z[0].result) if len(z) == 1 and z[0].ended == "ret" else (None, None)
    _, n = call("drv_count")
    if not isinstance(n, int) or n > 100:
        return None
    res = []
    for i in range(n):
        _, ln = call("drv_len", i)
        st, p = call("drv_chars", i)
        if not isinstance(ln, int) or not isinstance(p, Ptr):
            return None
        w = []
        for j in range(ln):
            v = m.load(st, Ptr(p.obj, padd(p.off, j)), 1, "i8")
            if not isinstance(v, (int, Poly)):
                return None
            w.append(v)
        res.append(w)
    return res


def split(check, tier):
    from report import parallel
    check.rule("terminates", "the split returns (or rejects an unbalanced text) after finitely many steps", 20)
    check.rule("parts", "for a balanced list the result is exactly its top-level parts, each without enclosing parentheses and white space", 20)
    check.rule("memory", "no access outside the strings; everything is released", 20)
    load()
    La, Lb = (5, 8) if tier == "quick" else (6, 10)
    pats = [p for n in range(La + 1) for p in words(n, "(), x")]
    pats += [p for n in range(La + 1, Lb + 1) for p in nested(n)]
    pats += [" (x , (x,x) ) ", "(((x,x),(x,x)))", "((xxxxxx)())", "( (), ((x) , x)  , (x , x) )  ", "((x,x),(x,x))", "(((x,x),(x,x),(x,x)),((x,x),(x,x),(x,x)))"]
    for d in range(3, 14):
        e, f = "(" * d, ")" * d
        pats += [e + "x" + f, e + "x" + f + ",x", "x," + e + "x,x" + f, "(" + e + "x" + f + ",x)", e + "x" + f + e + "x" + f + ",x", "x" * d + "," + "x" * d]
    check.count("patterns", len(pats))
    k = 8 * 12
    parallel(check, unit, [pats[i::k] for i in range(k)])


def words(n, alphabet):
    if n == 0:
        yield ""
        return
    for w in words(n - 1, alphabet):
        for c in alphabet:
            yield w + c


def nested(n, d=0):
    """balanced words of length n without white space"""
    if n == 0:
        if d == 0:
            yield ""
        return
    if d > n:
        return
    for c, e in (("(", 1), (")", -1), (",", 0), ("x", 0)):
        if d + e >= 0:
            for w in nested(n - 1, d + e):
                yield c + w
