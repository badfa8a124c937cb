"""Explores the worker bodies of the three stages in every build and configuration and hands a check the rules it asks for."""
import os, multiprocessing as mp
import ir, banks
from ir import AnalysisBroken
from engine import Unsupported
STARTS = ((False, False), (False, True), (True, False), (True, True))
BUILDS = {"tool": ("run.cpp", ()), "python": ("run.cpp", ("-DPYCENTAURUS=1",)), "recursive": ("rec.cpp", ())}


def configs(thorough):
    out = []
    for b in BUILDS:
        if b == "tool":
            out += [(b, 1, {}), (b, 1, dict(dry=True)), (b, 1, dict(captured=True))]
            if thorough: out += [(b, 1, dict(dry=True, captured=True))]
        for r in (2, 3):
            out += [(b, r, dict(xfer=True)), (b, r, dict(xfer=False))]
        out += [(b, 2, dict(xfer=True, world="YouAreDone"))]
    return out


def one(job):
    b, role, kw, start = job
    try:
        mod = ir.compile_tu(ir.VERIF + "/tu/" + BUILDS[b][0], BUILDS[b][1])
        D = banks.explore(mod, role, starts=(start,), limit=500, **kw)
        return (b, role, kw, start, dict(D.viol), sorted(map(str, D.facts)), D.cover[start], D.nstates, D.events, ("%s:%s" % (D.body.file, D.body.line)), None)
    except (AnalysisBroken, Unsupported) as e:
        return (b, role, kw, start, {}, [], (False, 0), 0, 0, "", str(e))


def run(C, rules, roles, coverage):
    """rules: the rule names this check answers for; coverage: also demand that banks are taken and workers end"""
    for b, (src, x) in BUILDS.items(): ir.compile_tu(ir.VERIF + "/tu/" + src, x)      # fail early
    jobs = [(b, r, kw, s) for b, r, kw in configs(C.tier == "thorough") if r in roles for s in STARTS]
    jobs.sort(key=lambda j: -(j[1] * 10 + (j[0] == "recursive") * 100 + bool(j[2].get("xfer"))))
    with mp.Pool(min(8, len(jobs))) as p: res = p.map(one, jobs, 1)
    n = 0
    for b, role, kw, start, viol, facts, (acq, rets), ns, ev, where, err in res:
        name = "stage %d, %s build, %s, arbitrary bank %s%s" % (role, b, ",".join("%s=%s" % k for k in sorted(kw.items())) or "normal", "is the first" if start[0] else "is not the first", " and last" if start[1] else "")
        if err and not viol: raise AnalysisBroken(name + ": " + err)
        bad = {r: v for r, v in viol.items() if r in rules}
        n += ns
        C.obligation(name, not bad, states=ns, bank_events=ev)
        for r, (msg, loc, trace) in bad.items():
            C.violation("%s:stage%d:%s" % (r, role, b), "%s (%s)" % (msg, name), loc, trace)
        if coverage and not viol:
            done = kw.get("world")
            if not done and not acq: C.violation("never-acquired:stage%d:%s" % (role, b), "no path of the worker ever takes a bank at this position of the table (%s)" % name, where)
            if done and acq: C.violation("acquired-after-end:stage%d:%s" % (role, b), "a worker takes a bank although every bank is marked done", where)
            if not rets: C.violation("never-ends:stage%d:%s" % (role, b), "no path of the worker ends%s (%s)" % (" although every bank is marked done" if done else "", name), where)
    C.stats.update(states_explored=n, configurations=len(jobs), entry_functions=sorted({r[9] for r in res if r[9]}))
    return res
