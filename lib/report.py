"""Obligation bookkeeping, evidence and verdict output shared by all checks."""
import json, os, sys, time, traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FFV_REPO", "/repo")


class Check:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.t0 = time.time()
        self.ob = []          # (rule, key, ok)
        self.viol = []
        self.und = []
        self.errors = []
        self.failed = []      # parts of the analysis that met a construct it does not support
        self.notes = []
        self.assume = []
        self.counts = {}
        self.keys = set()
        self.rules = {}
        self.minimum = {}
        self._known = None

    def rule(self, rid, text, minimum=1):
        """declare a rule; fewer than `minimum` evaluated instances is an analysis error"""
        self.rules[rid] = text
        self.minimum[rid] = minimum

    def ok(self, rule, key):
        self.ob.append((rule, key, True))

    def bad(self, rule, key, where, what):
        self.ob.append((rule, key, False))
        k = rule + ":" + key
        if k not in self.keys:
            self.keys.add(k)
            self.viol.append({"key": k, "rule": rule, "instance": key, "where": where, "what": what})

    def check(self, rule, key, cond, where="", what=""):
        if cond:
            self.ok(rule, key)
        else:
            self.bad(rule, key, where, what)
        return cond

    def undecided(self, rule, key, why):
        self.und.append({"rule": rule, "instance": key, "why": str(why)[:300]})

    def error(self, what):
        """the check cannot be carried out at all"""
        self.errors.append(what)

    def fail(self, what):
        """one part of the analysis cannot be carried out: nothing is concluded from it"""
        self.failed.append(what)
        self.und.append({"rule": "analysis", "instance": str(what)[:120], "why": str(what)[:300]})

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def known(self):
        if self._known is None:
            self._known = {}
            kf = os.path.join(ROOT, "known-findings.json")
            if os.path.exists(kf):
                for e in json.load(open(kf)):
                    if isinstance(e, dict) and e.get("property") == self.prop and e.get("status") == "known":
                        self._known[e["key"]] = e["what"]
        return self._known

    def finish(self):
        known = self.known()
        per = {}
        for r, k, ok in self.ob:
            d = per.setdefault(r, {"instances": 0, "held": 0})
            d["instances"] += 1
            d["held"] += bool(ok)
        und = {}
        for u in self.und:
            und[u["rule"]] = und.get(u["rule"], 0) + 1
        for r, m in self.minimum.items():
            n = per.get(r, {"instances": 0})["instances"] + und.get(r, 0)
            if n < m:
                what = "rule %s evaluated %d instances, expected at least %d" % (r, n, m)
                if self.failed:         # explained by the parts listed as undecided
                    self.und.append({"rule": r, "instance": "coverage", "why": what})
                else:
                    self.errors.append(what)
        if self.failed and not any(o[2] for o in self.ob):
            self.errors.append("nothing was decided: %s" % self.failed[0])
        new = [v for v in self.viol if v["key"] not in known]
        old = [v for v in self.viol if v["key"] in known]
        ev = {
            "property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
            "coverage": {
                "explanation": "Static analysis of /repo's current sources; obligations are rule instances decided on abstract values, never by running the code.",
                "rules": {r: {"rule": t, "instances": per.get(r, {}).get("instances", 0), "held": per.get(r, {}).get("held", 0), "undecided": und.get(r, 0)} for r, t in self.rules.items()},
                "obligations": len(self.ob), "held": sum(1 for o in self.ob if o[2]), "undecided": len(self.und),
                "measured": self.counts,
                "undecided_instances": self.und[:40],
            },
            "wall_s": round(time.time() - self.t0, 2),
            "assumptions": self.assume,
            "violations": len(new),
        }
        if self.notes:
            ev["coverage"]["notes"] = self.notes
        if self.errors:
            ev["coverage"]["analysis_errors"] = self.errors
        if new:
            ev["coverage"]["violation_details"] = new[:30]
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w"), indent=1)
        print("%s (%s): %d obligations, %d held, %d undecided, %d violated; %.1fs" % (
            self.prop, self.tier, len(self.ob), sum(1 for o in self.ob if o[2]), len(self.und), len(new), time.time() - self.t0))
        for u in self.und[:10]:
            print("  undecided %(rule)s %(instance)s: %(why)s" % u)
        for v in old:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, known[v["key"]]))
        if new:
            rp = os.path.join(ROOT, "evidence", "replay-%s.json" % self.prop)
            json.dump(new, open(rp, "w"), indent=1)
            for v in new[:25]:
                print("  %s | rule %s | %s | %s" % (v["where"], v["rule"], v["instance"], v["what"]))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        if self.errors:
            for e in self.errors:
                print("ANALYSIS-ERROR " + e)
            return 2
        return 0


def _child(a):
    fn, prop, tier, unit, t0 = a
    limit(6)
    c = Check(prop, tier)
    import signal
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(max(1, int(BUDGET - 30 - (time.time() - t0))))
    try:
        fn(c, tier, unit)
    except Exception as e:
        traceback.print_exc(limit=-4)
        c.fail("%s: %s: %s" % (unit, type(e).__name__, str(e)[:1500]))
    signal.alarm(0)
    return c.ob, c.viol, c.und, c.errors, c.counts, c.notes, c.failed


def parallel(check, fn, units, jobs=8):
    """evaluate fn(check, tier, unit) for every unit in worker processes and merge what they found"""
    import multiprocessing
    units = list(units)
    with multiprocessing.get_context("fork").Pool(min(jobs, os.cpu_count() or 1, max(1, len(units)))) as p:
        it = p.imap_unordered(_child, [(fn, check.prop, check.tier, u, check.t0) for u in units], 1)
        deadline = check.t0 + BUDGET
        for i in range(len(units)):
            if any(v["key"] not in check.known() for v in check.viol):      # enough is known: finish soon
                deadline = min(deadline, max(time.time() + 60, check.t0 + 150))
            try:
                ob, viol, und, errors, counts, notes, failed = it.next(max(.1, deadline - time.time()))
            except multiprocessing.TimeoutError:
                check.fail("%d of %d parts not analysed within the time limit of %d s" % (len(units) - i, len(units), deadline - check.t0))
                p.terminate()
                break
            check.ob += ob
            for v in viol:
                if v["key"] not in check.keys:
                    check.keys.add(v["key"])
                    check.viol.append(v)
            check.und += und
            check.errors += errors
            check.failed += failed
            check.notes += [n for n in notes if n not in check.notes]
            for k, n in counts.items():
                check.count(k, n)
            if check.viol and os.environ.get("FFV_FIRST"):      # mutation sweeps only
                p.terminate()
                break


BUDGET = 480 if sys.argv[2:3] != ["thorough"] else 780


def limit(gb):
    """an analysis that needs more memory than this gives up as undecided"""
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))


class OutOfTime(Exception):
    pass


def alarm(*a):
    raise OutOfTime("time limit reached")


def main(table):
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "quick")
    c = Check(prop, tier)
    import absint, signal
    limit(16)
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(BUDGET + 30)
    try:
        table[prop](c, tier)
    except absint.CompileError as e:
        c.error("%s: %s" % (type(e).__name__, str(e)[:2000]))
    except Exception as e:
        traceback.print_exc(limit=-4)
        c.fail("%s: %s" % (type(e).__name__, str(e)[:2000]))
    signal.alarm(0)
    import shutil
    if os.path.isdir(absint.WORK):
        shutil.rmtree(absint.WORK, ignore_errors=True)
    rc = c.finish()
    sys.stdout.flush()
    os._exit(rc)
