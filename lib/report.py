"""Common reporting for the checks: evidence, violations, known findings, exit codes."""
import json, os, sys, time, traceback
from ir import AnalysisBroken, VERIF, REPO
T0 = time.time()


class Check:
    def __init__(self, prop, level, technique):
        self.prop = prop; self.level = level; self.technique = technique
        self.viol = []; self.known = []; self.obl = []; self.notes = []; self.assume = []
        self.tier = os.environ.get("VERIF_TIER", "quick"); self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.stats = {}
        self.expect = 0

    def obligation(self, name, ok=True, **kw):
        d = {"obligation": name, "discharged": bool(ok)}; d.update(kw)
        self.obl.append(d)

    def violation(self, key, msg, where="", trace=None):
        """key identifies the finding: rule + site, stable under unrelated edits"""
        for v in self.viol:
            if v["key"] == key: return
        self.viol.append({"key": key, "message": msg, "where": where, "trace": trace or []})

    def finish(self, explanation, min_obl=1, assumptions=()):
        kf = load_known(self.prop)
        unlisted = []
        for v in self.viol:
            hit = [k for k in kf if k["key"] == v["key"]]
            if hit:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, hit[0]["what"]))
                self.known.append(v["key"])
            else:
                unlisted.append(v)
        nd = sum(1 for o in self.obl if o["discharged"])
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "wall_s": round(time.time() - T0, 2),
              "violations": len(unlisted), "assumptions": list(assumptions) + self.assume,
              "coverage": {"explanation": explanation, "technique": self.technique, "obligations": len(self.obl), "discharged": nd,
                           "obligation_list": self.obl[:400], "known_findings": self.known}}
        ev["coverage"].update(self.stats)
        if self.level == "proof":
            ev["coverage"].setdefault("checker_cmd", "python3 /verif/checks/%s.py" % self.prop)
            ev["coverage"].setdefault("trusted_base", ["clang 18 front end", "LLVM 18 sroa", "/verif/lib abstract interpreter and container models"])
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for v in unlisted:
            print("  rule: %s\n  where: %s\n  %s" % (v["key"], v["where"], v["message"]))
            for t in v["trace"][-25:]:
                print("      " + str(t))
        if unlisted:
            rp = os.path.join(VERIF, "evidence", self.prop + ".violation.json")
            with open(rp, "w") as f:
                json.dump(unlisted, f, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            sys.stdout.flush()
            os._exit(1)
        if len(self.obl) < min_obl:
            print("ANALYSIS-BROKEN: only %d obligations, expected at least %d" % (len(self.obl), min_obl))
            os._exit(3)
        print("OK property=%s obligations=%d wall=%.1fs" % (self.prop, len(self.obl), time.time() - T0))
        sys.stdout.flush()
        os._exit(0)


def parallel(C, jobs):
    """run the jobs (functions of a fresh Check) in processes of their own and merge what they report"""
    import pickle
    kids = []
    for j in jobs:
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r); out = None
            try:
                c = Check(C.prop, C.level, C.technique)
                try: j(c); out = (c.viol, c.obl, c.stats, c.notes, None)
                except AnalysisBroken as e:
                    if os.environ.get("VERIF_DEBUG"): traceback.print_exc()
                    out = (c.viol, c.obl, c.stats, c.notes, str(e))
                except BaseException as e:
                    traceback.print_exc()
                    out = (c.viol, c.obl, c.stats, c.notes, "%s: %s" % (type(e).__name__, e))
                with os.fdopen(w, "wb") as f: pickle.dump(out, f)
            finally:
                sys.stderr.flush(); os._exit(0)
        os.close(w); kids.append((pid, r))
    broken = []
    for pid, r in kids:
        with os.fdopen(r, "rb") as f: data = f.read()
        os.waitpid(pid, 0)
        if not data: broken.append("a worker died"); continue
        viol, obl, stats, notes, err = pickle.loads(data)
        for v in viol: C.violation(v["key"], v["message"], v["where"], v["trace"])
        C.obl += obl; C.notes += notes
        for k, x in stats.items(): C.stats[k] = C.stats[k] + x if isinstance(x, (int, float)) and k in C.stats else x
        if err: broken.append(err)
    if broken and not C.viol: raise AnalysisBroken(broken[0])


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == prop]


def main(fn):
    try:
        fn()
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN: %s" % e)
        if os.environ.get("VERIF_DEBUG"): traceback.print_exc()
        sys.stdout.flush()
        os._exit(3)
