"""Static initialisation does not depend on the order of translation units: what every initialiser and constructor reads
must have been set up by constants, by itself, by an earlier initialiser of its own unit or by its arguments."""
import os, re
from share import build, Program, origin, short, line, demangle, IMMUTABLE
from effects import split_dem
from report import REPO, parallel


def reach(P, r):
    seen, todo = set(), [r]
    while todo:
        n = todo.pop()
        if n in seen or n not in P.fns or P.fns[n]["decl"]:
            continue
        seen.add(n)
        for b in P.fns[n]["blocks"]:
            for i in b:
                if i["op"] in ("call", "invoke"):
                    for x in [i["callee"]] + [a[0] for a in i["args"]]:
                        if x[0] == "f":
                            todo.append(x[1])
    return seen


def effects(P, r):
    """static objects (written, read: where) by r and everything it calls; guarded first-use initialisation counts as written"""
    w, plain, rd = set(), set(), {}
    for n in sorted(reach(P, r)):
        s = P.E.summ.get(n)
        if s is None:
            continue
        for (o, ing, at) in s[0]:
            if o[0][0] == "G":
                w.add(o[0][1])
                if not ing:
                    plain.add(o[0][1])
        for g, where in s[1].items():
            if n == r or g not in rd:
                rd[g] = (n, where)
    for g in list(rd):              # what a constant pointer or reference stands for
        for h in pointees(P, g):
            rd.setdefault(h, rd[g])
    return w, plain, rd


def pointees(P, g):
    out, todo = set(), [P.mod["globals"].get(g, {}).get("init")]
    while todo:
        v = todo.pop()
        if isinstance(v, list):
            if len(v) == 2 and v[0] == "g" and v[1] not in out:
                out.add(v[1])
                todo.append(P.mod["globals"].get(v[1], {}).get("init") if P.mod["globals"].get(v[1], {}).get("const") else None)
            else:
                todo += v
    return out


def is_ctor(dem):
    cls, nm, ps, q = split_dem(dem)
    return bool(cls) and nm.split("<")[0] == cls[-1].split("<")[0]


def constructed(P, n):
    """static objects n runs a constructor on"""
    out = set()
    if P.fns[n]["decl"]:
        return out
    for b in P.fns[n]["blocks"]:
        for i in b:
            if i["op"] in ("call", "invoke") and i["callee"][0] == "f" and i["args"] and is_ctor(P.fns[i["callee"][1]]["dem"]):
                a = i["args"][0][0]
                if a[0] == "g":
                    out.add(a[1])
    return out


def steps(P, root):
    out = []
    for b in P.fns[root]["blocks"]:
        for i in b:
            if i["op"] in ("call", "invoke") and i["callee"][0] == "f" and not P.fns[i["callee"][1]]["decl"]:
                out.append(i["callee"][1])
    return out


def unit(check, tier, backend):
    mod, bad = build(backend)
    for s, e in bad:
        check.fail("%s does not compile: %s" % (s, e))
    P = Program(mod)
    own = {g for g, d in mod["globals"].items() if "init" in d and not d["const"] and not g.startswith((".", "__dso", "_ZGV", "_ZStL", "_ZTV", "_ZTI", "_ZTS", "llvm.", "_ZNSt", "_ZSt"))}
    roots = sorted(n for n in P.fns if n.startswith(("_GLOBAL__sub_I", "_GLOBAL__I")) and not P.fns[n]["decl"])
    info, setby, ctor = {}, {}, {}
    for r in roots:
        info[r] = []
        for st in steps(P, r):
            w, plain, rd = effects(P, st)
            c = constructed(P, st)
            info[r].append((st, w, rd, c))
            for g in plain & own:
                setby.setdefault(g, []).append((r, len(info[r]) - 1))
            for g in c & own:
                ctor.setdefault(g, []).append((r, len(info[r]) - 1))
    dyn = set(setby) | set(ctor)
    check.count("dynamically initialised static objects (%s)" % backend, len(dyn))
    tu = lambda r: r.replace("_GLOBAL__sub_I_", "")
    nm = lambda g: demangle(P, g)
    for r in roots:
        done, used = set(), {}
        for k, (st, w, rd, c) in enumerate(info[r]):
            target = sorted(c) or sorted(g for g in w & own if any(x == (r, k) for x in setby.get(g, ())))
            key = "%s %s #%d %s" % (backend, tu(r), k, nm(target[0]) if target else "")
            ready = done | c | {g for g in w if g not in ctor}
            late = sorted(g for g in rd if g in dyn and g not in ready)
            here = [g for g in late if any(q == r for q, _ in ctor.get(g, setby[g] if g in setby else ()))]
            there = [g for g in late if g not in here]
            for rule, ls, what in (("sequence", here, "which this unit initialises only later"), ("units", there, "which another translation unit initialises, before or after depending on link order")):
                if ls:
                    n, where = rd[ls[0]]
                    check.bad(rule, key, line(where), "initialising %s, %s uses %s, %s" % (nm(target[0]) if target else tu(r), short(P.fns[n]["dem"]), nm(ls[0]), what))
                else:
                    check.ok(rule, key)
            done |= c | {g for g in w if g not in ctor}
            check.count("initialisers (%s)" % backend)
    # constructors a program may run in its own initialisers
    ctors = {}
    for n, f in sorted(P.fns.items()):
        if f["decl"] or origin(f) is None or not is_ctor(f["dem"]):
            continue
        cls = split_dem(f["dem"])[0][-1]
        ctors.setdefault(cls.split("<")[0], []).append(n)
    eff = {n: effects(P, n) for ns in ctors.values() for n in ns}
    for cls, ns in sorted(ctors.items()):
        for n in ns:
            w, plain, rd = eff[n]
            params = ",".join(split_dem(P.fns[n]["dem"])[2])
            given = set(w)
            for other, ms in ctors.items():
                if re.search(r"\b%s\b" % re.escape(other), params):
                    for m in ms:
                        given |= eff[m][0]
            late = sorted(g for g in rd if g in dyn and (g not in given or g in ctor))
            key = "%s %s" % (backend, P.fns[n]["dem"][:120])
            if late:
                fn, where = rd[late[0]]
                check.bad("constructors", key, line(where), "constructing %s, %s uses %s, which only the initialiser of another translation unit sets up" % (cls, short(P.fns[fn]["dem"]), nm(late[0])))
            else:
                check.ok("constructors", key)

    # operations on objects a program constructs in its own initialisers
    ready = set()
    for n in eff:
        ready |= eff[n][0]
    for n, f in sorted(P.fns.items()):
        src = origin(f)
        if f["decl"] or src is None or n in eff or n in P.init_only or is_ctor(f["dem"]) or n.startswith("_GLOBAL"):
            continue
        cls = split_dem(f["dem"])[0]
        if not (cls and cls[-1].split("<")[0] in KLASS) and not src.startswith("c/"):
            continue
        if "AltBn128" in cls:
            continue
        w, plain, rd = effects(P, n)
        late = sorted(g for g in rd if g in dyn and g not in w and (g not in ready or g in ctor))
        key = "%s %s" % (backend, f["dem"][:120])
        if late:
            fn, where = rd[late[0]]
            check.bad("operations", key, line(where), "%s uses %s, which only the initialiser of %s sets up" % (short(f["dem"]), nm(late[0]), tu((setby.get(late[0]) or ctor[late[0]])[0][0])))
        else:
            check.ok("operations", key)


KLASS = set(IMMUTABLE) | {"MSM", "ParallelMultiexp"}


def order(check, tier):
    check.rule("sequence", "an initialiser uses no static object that its own translation unit initialises later", 20)
    check.rule("units", "an initialiser uses no static object that only another translation unit initialises", 20)
    check.rule("constructors", "a constructor uses no static object beyond constants, what it sets up itself and what its arguments' constructors set up", 20)
    check.rule("operations", "an operation uses no static object that is set up only by the initialiser of a translation unit", 200)
    parallel(check, unit, ["portable", "x86"])
    check.assume.append("Objects handed to a constructor have been constructed; library functions without a body here use no static object of the repository.")
