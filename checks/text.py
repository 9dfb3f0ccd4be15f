"""Text conversion of extension-field elements and curve points: strings and streams are followed character by
character over opaque base-field texts, so that every coordinate text, its position and its radix can be identified."""
from absint import *
from ring import *
from cfile import Witness
from report import REPO, ROOT, parallel
from strings import SplitMachine

S = Poly.sym
OS = r"basic_(?:o|io)?(?:string)?stream"


class TextMachine(SplitMachine):
    """adds output streams and the text conversions of the opaque base ring"""

    def __init__(self, mod):
        SplitMachine.__init__(self, mod)
        self.tokens = []                # text number -> (ring, value, radix)
        self.cl = RingClient()
        install(self, self.cl, strings=self.from_text)
        self.to_text = self.ring_text
        self.reads = []
        R = self.register
        R(r"basic_o?stringstream<char.*>::basic_o?stringstream\(", self.h_stream)
        R(r"basic_o?stringstream<char.*>::~basic_o?stringstream\(", lambda m, s, i, a: None)
        R(r"basic_o?stringstream<char.*>::str\(\) const", self.h_str)
        R(r"std::ostream::(put|write|flush|operator<<)|std::basic_ostream<char, std::char_traits<char> ?>::(put|write|flush|operator<<)\(", self.h_member)
        R(r"std::(?:basic_ostream<char, std::char_traits<char> ?>|ostream) ?& std::(operator<<|__ostream_insert)", self.h_insert)

    # ---- std::string values
    def chars(self, s, p):
        """the characters of the string object at p"""
        q = self.load(s, p, 8, "p")
        n = self.load(s, Ptr(p.obj, padd(p.off, 8)), 8)
        if isinstance(n, Poly) and n.is_const():
            n = n.cval()
        if not isinstance(q, Ptr) or not isinstance(n, int) or n > 4096:
            raise Undecided("string not tracked at %s" % self.where(s))
        return tuple(self.load(s, Ptr(q.obj, padd(q.off, i)), 1, "i8") for i in range(n))

    def build(self, s, p, text):
        """construct a string object at p"""
        n = len(text)
        if n < 16:
            q = Ptr(p.obj, padd(p.off, 16))
        else:
            q = self.heap(s, n + 1, "string@" + self.where(s))
            self.store(s, Ptr(p.obj, padd(p.off, 16)), 8, n)
        self.store(s, p, 8, q)
        self.store(s, Ptr(p.obj, padd(p.off, 8)), 8, n)
        for i, c in enumerate(tuple(text) + (0,)):
            self.store(s, Ptr(q.obj, padd(q.off, i)), 1, c if not isinstance(c, str) else ord(c))

    # ---- streams
    def h_stream(self, m, s, ins, a):
        if len(a) > 1 and not (len(a) == 2 and isinstance(a[1], int)):
            raise Undecided("stream constructed from something")
        s.tags["stream"] = dict(s.tags.get("stream", {}))
        s.tags["stream"][a[0].obj] = ()
        return None

    def emit(self, s, p, text):
        st = s.tags.get("stream", {})
        if not isinstance(p, Ptr) or p.obj not in st:
            raise Undecided("output to an unknown stream at %s" % self.where(s))
        s.tags["stream"] = dict(st)
        s.tags["stream"][p.obj] = st[p.obj] + tuple(text)
        return p

    def h_str(self, m, s, ins, a):
        st = s.tags.get("stream", {})
        if a[1].obj not in st:
            raise Undecided("unknown stream")
        self.build(s, a[0], st[a[1].obj])
        return None

    def number(self, s, v, dem):
        w, sg = (64, True) if "(long" in dem else (64, False) if "(unsigned long" in dem else (32, False) if "(unsigned" in dem else (32, True)
        v = self.norm(s, v, w, sg)
        if isinstance(v, Poly) and v.is_const():
            v = v.cval()
        if not isinstance(v, int):
            raise Undecided("a number that is not constant is printed")
        return tuple(map(ord, str(v)))

    def h_member(self, m, s, ins, a):
        dem = self.mod["functions"][self.val(s, ins["callee"]).name]["dem"]
        if "::put(" in dem:
            return self.emit(s, a[0], (a[1],))
        if "::flush(" in dem:
            return a[0]
        if "::write(" in dem:
            return self.emit(s, a[0], self.span(s, a[1], a[2]))
        if re.search(r"operator<<\((unsigned |signed )?(int|long|short|long long)\)", dem):
            return self.emit(s, a[0], self.number(s, a[1], dem))
        raise Undecided("stream manipulator")

    def span(self, s, p, n):
        if not isinstance(n, int) or n > 4096:
            raise Undecided("text of unknown length")
        return tuple(self.load(s, Ptr(p.obj, padd(p.off, i)), 1, "i8") for i in range(n))

    def zstr(self, s, p):
        out = []
        while len(out) < 4096:
            c = self.load(s, Ptr(p.obj, padd(p.off, len(out))), 1, "i8")
            if s.ended:
                return ()
            if not isinstance(c, int):
                raise Undecided("text of unknown length")
            if c == 0:
                return tuple(out)
            out.append(c)
        raise Undecided("very long text")

    def h_insert(self, m, s, ins, a):
        dem = self.mod["functions"][self.val(s, ins["callee"]).name]["dem"]
        if "__ostream_insert" in dem:
            return self.emit(s, a[0], self.span(s, a[1], a[2]))
        if "basic_string<" in dem.split("(", 1)[1]:
            return self.emit(s, a[0], self.chars(s, a[1]))
        if "char const*" in dem:
            return self.emit(s, a[0], self.zstr(s, a[1]))
        if re.search(r", char\)", dem):
            return self.emit(s, a[0], (a[1],))
        raise Undecided("output of an unmodelled kind: " + dem)

    # ---- texts of the base ring
    def ring_text(self, mm, s, ring, a):
        v = elem(self, s, a[2], SIZES[ring], "toString")
        radix = a[3] if len(a) > 3 else 10
        if isinstance(radix, Poly) and radix.is_const():
            radix = radix.cval()
        for i, (r, w, x) in enumerate(self.tokens):
            if r == ring and x == radix and w.num_eq(v).is_zero():
                break
        else:
            i = len(self.tokens)
            self.tokens.append((ring, v, radix))
        self.build(s, a[0], "%d" % (70000 + i))
        return None

    def from_text(self, mm, s, ring, args):
        t = self.chars(s, args[0])
        radix = args[1] if len(args) > 1 else 10
        if any(not isinstance(c, int) for c in t):
            raise Undecided("text not tracked")
        return self.meaning("".join(map(chr, t)), ring, radix)

    def meaning(self, t, ring, radix=10):
        if radix == 10 and t.isdigit() and 70000 <= int(t) < 70000 + len(self.tokens):
            r, v, x = self.tokens[int(t) - 70000]
            if r == ring and x == 10:
                return v
        if radix == 10 and ring == "AbsField" and t.lstrip("-").isdigit() and len(t) < 5:
            return Rat(int(t))
        return Rat(S("%s{%s}radix%s" % (ring, t, radix)))


MODS = {}
LEVEL = {2: ("F2Field", "AbsField", 2), 6: ("F6Field", "AbsF2", 3), 12: ("F12Field", "AbsF6", 2), 112: ("F12Field over F6Field over F2Field", "AbsField", 12)}


class TC:
    def __init__(self, what):
        if what not in MODS:
            MODS[what] = compile_ir(ROOT + "/drivers/text.cpp", ["-I" + ROOT + "/drivers/stubs", "-I" + REPO + "/c", "-DWHAT=%d" % what, "-fopenmp", "-DUSE_OPENMP"])
        self.m = m = TextMachine(MODS[what])
        self.what = what
        self.size = m.run(m.new_state(), "d_size", [])[0].result
        s = m.new_state()
        s.tags["nz"] = tuple([S("nr"), S("nr") - 1, S("nr") + 1])
        if what in (1, 3):
            self.base = s
            return
        self.obj = s.alloc(self.size, "field", "input")
        args = [Ptr(self.obj, 0)]
        if what == 2:
            args.append(self.put(s, [S("nr")], 32))
        self.base = self.one(m.run(s, "d_ctor", args))

    def one(self, fin):
        out = [x for x in fin if x.ended == "ret"]
        if len(out) != 1 or len(fin) != 1:
            raise Undecided("constructor outcomes: %s" % [x.ended for x in fin])
        out[0].ended = None
        return out[0]

    def put(self, s, vals, size):
        o = s.alloc(size * max(1, len(vals)), "element", "input")
        for i, v in enumerate(vals):
            if v is not None:
                s.mem[o].cells[i * size] = (size, v if isinstance(v, Rat) else Rat(v))
        return Ptr(o, 0)

    def string(self, s, text):
        o = s.alloc(32, "text", "input")
        if len(text) >= 16:
            q = s.alloc(len(text) + 1, "characters", "input")
            s.mem[o].cells[16] = (8, len(text))
            base = 0
        else:
            q, base = o, 16
        s.mem[o].cells[0] = (8, Ptr(q, base))
        s.mem[o].cells[8] = (8, len(text))
        for i, c in enumerate(text.encode() + b"\0"):
            s.mem[q].cells[base + i] = (1, c)
        return Ptr(o, 0)

    def elems(self, st, p, n, size):
        return [elem(self.m, st, Ptr(p.obj, padd(p.off, i * size)), size, "result") for i in range(n)]


def where(m, r, cls):
    for t in ("crash", "exc", "abort"):
        if r.tags.get(t):
            w = r.tags[t]
            return w[0] if t == "crash" else w[1]
    return cls


def outcome(check, c, r, key, cls):
    """True if the call returned properly"""
    m = c.m
    if r.ended == "crash" or r.ended == "endless":
        if Witness(m, r).found:
            check.bad("memory", key, *r.tags["crash"])
        return False
    lk = m.leaks(r) if r.ended != "abort" else []
    if lk:
        check.bad("memory", key, where(m, r, cls), "never released: " + ", ".join(lk[:2]))
    else:
        check.ok("memory", key)
    return r.ended == "ret"


def show(t):
    return "".join(chr(x) if isinstance(x, int) and 32 <= x < 127 else "?" for x in t)


def call(check, c, s, rule, key, fn, args):
    m = c.m
    m.oob, m.client_uninit = [], []
    try:
        fin = m.run(s, fn, args)
    except Undecided as e:
        check.undecided(rule, key, e)
        return []
    check.count("calls analysed")
    for x in m.unmodelled:
        if x not in check.notes:
            check.notes.append("not modelled: " + x)
    for w, t in m.client_uninit:
        check.bad("memory", key, w, t)
    return fin


def judge_text(check, c, r, key, cls, sp, want, radix):
    """want: list of (ring, value); literal characters as strings"""
    m = c.m
    try:
        t = m.chars(r, sp)
    except Undecided as e:
        check.undecided("format", key, e)
        return
    txt = show(t)
    rx = "".join(re.escape(w) if isinstance(w, str) else r"(7\d{4})" for w in want)
    mo = re.match("^" + rx + "$", txt)
    shape = "".join(w if isinstance(w, str) else "<%s>" % w[2] for w in want)
    if not mo:
        check.bad("format", key, cls, "the text is %s where %s was expected (7xxxx: text of a coordinate)" % (txt, shape))
        return
    for g, (ring, v, nm) in zip(mo.groups(), [w for w in want if not isinstance(w, str)]):
        i = int(g) - 70000
        if i >= len(m.tokens):
            check.bad("format", key, cls, "the text contains %s" % g)
            return
        tr, tv, tx = m.tokens[i]
        if not tv.num_eq(v).is_zero():
            check.bad("format", key, cls, "the text of %r stands where that of %s (%r) belongs" % (tv, nm, v))
            return
        if not (tx == radix):
            check.bad("format", key, cls, "a coordinate is written in radix %s where radix %s was asked for" % (tx, radix))
            return
    check.ok("format", key)


def nested(parts, spec):
    """the shape (a,b) or ((a,b),(c,d)) for a list of coordinates; spec: group sizes from the outside in"""
    if not spec:
        return [parts[0]]
    n = spec[0]
    k = len(parts) // n
    out = ["("]
    for i in range(n):
        out += ([","] if i else []) + nested(parts[i * k:(i + 1) * k], spec[1:])
    return out + [")"]


SPEC = {2: [2], 6: [3], 12: [2], 112: [2, 3, 2]}


def tower(check, what):
    cls, ring, n = LEVEL[what]
    sz = SIZES[ring]
    c = TC(what)
    m = c.m
    A = [Rat(S("%s_e%d" % (ring, i))) for i in range(n)]
    NM = ["coordinate %d" % (i + 1) for i in range(n)]
    # element -> text
    for radix in (None, 10, 16, 2, 36):
        for vals, tag in ((A, "all coordinates different"), ([A[0]] * n, "all coordinates equal"), ([Rat(0)] * (n - 1) + [Rat(1)], "zeros and a one")):
            key = "%s to text, %s, %s" % (cls, "radix %s" % radix if radix else "default radix", tag)
            s = c.base.clone()
            e = c.put(s, vals, sz)
            sp = Ptr(s.alloc(32, "result", "input"), 0)
            for r in call(check, c, s, "format", key, "d_to" if radix else "d_to_default", [Ptr(c.obj, 0), sp, e] + ([radix] if radix else [])):
                if r.ended == "ret":
                    judge_text(check, c, r, key, cls + "::toString", sp, nested([(ring, v, x) for v, x in zip(vals, NM)], SPEC[what]), radix or 10)
                    now = c.elems(r, e, n, sz)
                    check.check("memory", key + ", operand", all(x.num_eq(y).is_zero() for x, y in zip(now, vals)), cls, "the element is changed")
                    r.ended = None
                    for q in m.run(r, "d_unstr", [sp]):
                        outcome(check, c, q, key, cls + "::toString")
                elif outcome(check, c, r, key, cls) is False and r.ended != "crash":
                    check.bad("format", key, where(m, r, cls), "the conversion does not return")
    # text -> element
    words = ["%d" % (11 + 3 * i) for i in range(n)]
    longw = ["%d%d" % (i + 1, 10 ** 30) for i in range(n)]
    for W in (words, longw, ["0"] * (n - 1) + ["1"]):
        flat = nested(W, SPEC[what])
        forms = ["".join(flat), " " + " , ".join("".join(flat).split(",")) + "\t", "(" + "".join(flat) + ")"]
        if what != 112:
            forms += [",".join(W), ",".join("(%s)" % w for w in W), "\n( (%s) )" % " ,\t".join(W)]
        for f in forms:
            key = "%s from text \"%s\"" % (cls, f.replace("\n", "\\n").replace("\t", "\\t")[:80])
            parse(check, c, key, cls, f, [m.meaning(w, ring) for w in W], n, sz)
    # texts with another number of parts
    wrong = []
    for k in range(0, 6):
        if k != SPEC[what][0]:
            inner = ["".join(nested(words[:n // SPEC[what][0]], SPEC[what][1:]))] * k
            wrong += ["(" + ",".join(inner) + ")", ",".join(inner), " ( " + " , ".join(inner) + " ) "]
    if what == 112:
        f6 = lambda x, k=3: "(" + ",".join([x] * k) + ")"
        wrong += ["(%s,%s)" % (f6("(1,2)", 2), f6("(1,2)")), "(%s,%s)" % (f6("(1,2)"), f6("(1,2)", 4)), "(%s,%s)" % (f6("(1,2,3)"), f6("(1,2)")),
                  "(%s,%s)" % (f6("(1,2)"), f6("(7)")), "(%s,%s)" % (f6("(1,2)"), f6("7")), "((1,2),(3,4),(5,6))", "1,2"]
    for f in wrong:
        parse(check, c, "%s from text \"%s\" with a wrong number of parts" % (cls, f), cls, f, None, n, sz)
    # there and back
    key = "%s to text and back" % cls
    s = c.base.clone()
    e = c.put(s, A, sz)
    o = c.put(s, [None] * n, sz)
    for r in call(check, c, s, "round-trip", key, "d_round", [Ptr(c.obj, 0), o, e]):
        if outcome(check, c, r, key, cls):
            try:
                got = c.elems(r, o, n, sz)
            except Undecided as x:
                check.undecided("round-trip", key, x)
                continue
            bad = [i for i in range(n) if not got[i].num_eq(A[i]).is_zero()]
            check.check("round-trip", key, not bad, cls, "coordinate %d comes back as %r" % (bad[0] + 1, got[bad[0]]) if bad else "")
        elif r.ended in ("throw", "abort"):
            check.bad("round-trip", key, where(m, r, cls), "the text of an element is rejected")


def parse(check, c, key, cls, text, want, n, sz):
    m = c.m
    s = c.base.clone()
    o = c.put(s, [None] * n, sz)
    sp = c.string(s, text)
    for r in call(check, c, s, "parse", key, "d_from", [Ptr(c.obj, 0), o, sp]):
        okk = outcome(check, c, r, key, cls)
        if r.ended == "crash":
            continue
        w = where(m, r, cls + "::fromString")
        if want is None:
            if r.ended == "throw":
                nm, std = m.thrown(r)
                if std is None:
                    check.undecided("parse", key, "type of the exception not known")
                else:
                    check.check("parse", key, std, w, "the text is rejected with something that is not a standard exception (%s)" % nm)
            else:
                check.bad("parse", key, w, "accepted" if okk else "the process is terminated")
            continue
        if not okk:
            check.bad("parse", key, w, "a text with the right number of parts is rejected")
            continue
        try:
            got = c.elems(r, o, n, sz)
        except Undecided as x:
            check.undecided("parse", key, x)
            continue
        if m.client_uninit:
            check.bad("parse", key, w, "a coordinate is never written")
            continue
        bad = [i for i in range(n) if not got[i].num_eq(want[i]).is_zero()]
        check.check("parse", key, not bad, w, "coordinate %d is %r, not %r" % (bad[0] + 1, got[bad[0]], want[bad[0]]) if bad else "")


def curve(check, what):
    c = TC(what)
    m = c.m
    n, ring, sz = (1, "AbsField", 32)
    k = 2 if what == 3 else 1
    cls = "Curve" if what == 1 else "Curve over F2Field"

    def field(s):
        f = Ptr(s.alloc(m.run(m.new_state(), "d_gsize", [])[0].result, "base field", "input"), 0)
        if what == 3:
            return c.one(m.run(s, "d_fctor", [f, c.put(s, [S("nr")], 32)])), f
        return s, f
    mk = lambda nm: [Rat(S("%s%d" % (nm, i))) for i in range(k)]
    a, b, gx, gy = mk("a"), mk("b"), mk("gx"), mk("gy")
    s, f = field(c.base.clone())
    s.tags["nz"] = s.tags["nz"] + tuple(x.n for x in a) + tuple(x.n - 1 for x in a) + tuple(x.n + 1 for x in a)
    c.obj = s.alloc(c.size, "curve", "input")
    base = c.one(m.run(s, "d_ctor", [Ptr(c.obj, 0), f] + [c.put(s, v, 32) for v in (a, b, gx, gy)]))
    # point -> text
    x, y, z = mk("x"), mk("y"), [Rat(S("z"))] + [Rat(0)] * (k - 1)
    pts = [("affine point", [x, y, [Rat(1)] + [Rat(0)] * (k - 1), [Rat(1)] + [Rat(0)] * (k - 1)], x, y, [])]
    zz, zzz = S("z") * S("z"), S("z") * S("z") * S("z")
    pts.append(("point with a denominator", [[Rat(zz) * v for v in x], [Rat(zzz) * v for v in y], [Rat(zz)] + [Rat(0)] * (k - 1), [Rat(zzz)] + [Rat(0)] * (k - 1)], x, y, [S("z")]))
    Z = [Rat(0)] * k
    pts.append(("neutral element", [[Rat(S("u%d" % i)) for i in range(k)], [Rat(S("v%d" % i)) for i in range(k)], Z, Z], Z, Z, []))
    for tag, co, ex, ey, nz in pts:
        for radix in (None, 10, 16, 2):
            key = "%s, %s to text, %s" % (cls, tag, "radix %s" % radix if radix else "default radix")
            s = base.clone()
            s.tags["nz"] = s.tags["nz"] + tuple(nz)
            flat = [v for co1 in co for v in co1]
            e = c.put(s, flat, 32)
            sp = Ptr(s.alloc(32, "result", "input"), 0)
            want = nested([(ring, v, "x" if i < k else "y") for i, v in enumerate(list(ex) + list(ey))], [2] + ([2] if k == 2 else []))
            for r in call(check, c, s, "format", key, "d_to" if radix else "d_to_default", [Ptr(c.obj, 0), sp, e] + ([radix] if radix else [])):
                if r.ended == "ret":
                    judge_text(check, c, r, key, "Curve::toString", sp, want, radix or 10)
                    now = c.elems(r, e, len(flat), 32)
                    check.check("memory", key + ", operand", all(p.num_eq(q).is_zero() for p, q in zip(now, flat)), cls, "the point is changed")
                    r.ended = None
                    for q in m.run(r, "d_unstr", [sp]):
                        outcome(check, c, q, key, cls + "::toString")
                elif outcome(check, c, r, key, cls) is False and r.ended != "crash":
                    check.bad("format", key, where(m, r, cls), "the conversion does not return")
    # curve from texts
    T = [["%d" % (4001 + 10 * i + j) for j in range(k)] for i in range(4)]
    for vals in (T, [["0"] * k] + T[1:], [["1"] + ["0"] * (k - 1)] + T[1:]):
        txt = ["(" + ",".join(v) + ")" if k == 2 else v[0] for v in vals]
        key = "%s from texts %s" % (cls, " ".join(txt))
        s, f = field(c.base.clone())
        obj = Ptr(s.alloc(c.size, "curve", "input"), 0)
        want = [[m.meaning(w, ring) for w in v] for v in vals]
        for r in call(check, c, s, "constructor", key, "d_ctor_s", [obj, f] + [c.string(s, t) for t in txt]):
            if not outcome(check, c, r, key, cls):
                if r.ended != "crash":
                    check.bad("constructor", key, where(m, r, cls), "the construction does not return")
                continue
            one = [Rat(1)] + [Rat(0)] * (k - 1)
            for fn, exp in (("d_a", want[0]), ("d_b", want[1]), ("d_one", want[2] + want[3] + one + one), ("d_oneA", want[2] + want[3]),
                            ("d_zero", None), ("d_zeroA", Z + Z)):
                q = r.clone()
                q.ended = None
                q = m.run(q, fn, [obj])[0]
                if exp is None:             # the neutral element: both denominators are zero
                    got, exp2 = c.elems(q, Ptr(q.result.obj, padd(q.result.off, 64 * k)), 2 * k, 32), Z + Z
                else:
                    got, exp2 = c.elems(q, q.result, len(exp), 32), exp
                bad = [i for i in range(len(exp2)) if not got[i].num_eq(exp2[i]).is_zero()]
                check.check("constructor", key + " " + fn[2:], not bad, "Curve::Curve", "value %d is %r, not %r" % (bad[0] + 1, got[bad[0]], exp2[bad[0]]) if bad else "")


def f2ctor(check):
    c = TC(2)
    m = c.m
    X, Y = [Rat(S("p0")), Rat(S("p1"))], [Rat(S("q0")), Rat(S("q1"))]
    for t in ("0", "1", "-1", "5", "-2", " 5", "123456789012345678901234567890"):
        key = "F2Field from the text \"%s\"" % t
        nr = m.meaning(t, "AbsField")
        s = m.new_state()
        s.tags["nz"] = tuple(v for v in ((nr - 0).n, (nr - 1).n, (nr + 1).n) if not v.is_const())
        obj = Ptr(s.alloc(c.size, "field", "input"), 0)
        for r in call(check, c, s, "constructor", key, "d_ctor_s", [obj, c.string(s, t)]):
            if not outcome(check, c, r, key, "F2Field"):
                if r.ended != "crash":
                    check.bad("constructor", key, where(m, r, "F2Field"), "the construction does not return")
                continue
            r.ended = None
            q = r.clone()
            o = c.put(q, [None, None], 32)
            for q in m.run(q, "d_mul", [obj, o, c.put(q, X, 32), c.put(q, Y, 32)]):
                got = c.elems(q, o, 2, 32)
                want = [X[0] * Y[0] + nr * X[1] * Y[1], X[0] * Y[1] + X[1] * Y[0]]
                check.check("constructor", key + " product", all(g.num_eq(w).is_zero() for g, w in zip(got, want)), "F2Field::F2Field", "the product is %r" % (got,))
            for fn, want in (("d_zero", [0, 0]), ("d_one", [1, 0]), ("d_negOne", [-1, 0])):
                q = m.run(r.clone(), fn, [obj])[0]
                got = c.elems(q, q.result, 2, 32)
                check.check("constructor", key + " " + fn[2:], all(g.num_eq(Rat(w)).is_zero() for g, w in zip(got, want)), "F2Field::F2Field", "the constant is %r" % (got,))


def unit(check, tier, u):
    kind, what = u
    if kind == "tower":
        tower(check, what)
    elif kind == "curve":
        curve(check, what)
    else:
        f2ctor(check)


def text(check, tier):
    check.rule("format", "the text of an element or point is the parenthesised, comma-separated list of the texts of its (affine) coordinates, in storage order and in the stated radix", 20)
    check.rule("parse", "a text with the right number of parts gives the element with exactly these coordinates; any other is rejected with a standard exception", 20)
    check.rule("round-trip", "parsing the text of an element gives the element", 4)
    check.rule("constructor", "a curve or field made from texts has exactly the parameters the texts denote", 20)
    check.rule("memory", "no access outside the strings, operands unchanged, everything released", 40)
    parallel(check, unit, [("tower", 112), ("tower", 2), ("tower", 6), ("tower", 12), ("curve", 1), ("curve", 3), ("f2", 0)])
