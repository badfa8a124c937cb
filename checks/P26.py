"""P26: every constructor gives every plain attribute a definite value."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import ir, report
from ir import AnalysisBroken
from init import Flow, FULL

SCALAR = ("basic", "ptr", "enum")


def strip(s):
    """name without template arguments"""
    out = ""; d = 0
    for c in s:
        if c == "<": d += 1
        elif c == ">": d -= 1
        elif d == 0: out += c
    return out


def is_ctor(f):
    if not f.cls or not f.cls.startswith("Centaurus::"): return False
    d = f.dem; depth = 0; name = ""
    for i, c in enumerate(d):
        if c == "<": depth += 1
        elif c == ">": depth -= 1
        elif c == "(" and depth == 0 and not d.startswith("(anonymous", i): break
        if depth == 0 and c != ">": name += c
    return name.strip().split("::")[-1] == strip(f.cls).split("::")[-1] and "~" not in name


def bases(mod, cls):
    out = []
    for off, b in mod.types.get(cls, {}).get("bases", []):
        out.append((off, b[1])); out += [(off + o, n) for o, n in bases(mod, b[1])]
    return out


def main():
    C = report.Check("P26", "proof", "definite-initialisation dataflow over the compiled constructors")
    mod = ir.compile_tu(ir.VERIF + "/tu/core.cpp")
    cc = ir.compile_tu(ir.VERIF + "/tu/charclass.cpp")
    fl = Flow(mod)
    runner_bases = {n for c in mod.types for _, n in bases(mod, c) if n == "Centaurus::BaseRunner"}
    isrunner = lambda c: c == "Centaurus::BaseRunner" or any(n == "Centaurus::BaseRunner" for _, n in bases(mod, c))
    ncls = set(); seen = set()
    left = {}
    for m in (mod, cc):
        fl = Flow(m)
        for f in sorted(m.functions.values(), key=lambda f: f.dem):
            if not f.defined or not is_ctor(f) or f.dem in seen: continue
            seen.add(f.dem)
            t = m.types.get(f.cls)
            if t is None: raise AnalysisBroken("no layout of %s" % f.cls)
            ncls.add(f.cls)
            w, rd = fl.summary(f, 0)
            mem = [(a, o, k) for a, o, k in t["members"] if k[0] in SCALAR]
            if w is FULL: mem = []      # never returns normally
            miss = [a for a, o, k in mem if not set(range(o, o + k[2])) <= w]
            if isrunner(f.cls):
                left.setdefault(f.cls, []).append((f, w))
                continue
            C.obligation("%s defines %d plain attributes" % (f.dem, len(mem)), not miss, file=f.file, line=f.line)
            for a in miss:
                C.violation("uninit:%s:%s:%s" % (strip(f.cls), a, strip(f.dem.split("(", 1)[1])),
                            "%s can return without giving %s a value" % (f.dem, a), "%s:%s" % (f.file, f.line))
            for off, c in [(0, f.cls)] + bases(m, f.cls):
                for a, o, k in m.types.get(c, {}).get("members", []):
                    if k[0] not in SCALAR: continue
                    hit = [l for x, l in rd.items() if off + o <= x < off + o + k[2]]
                    if hit: C.violation("self-read:%s:%s:%s" % (strip(f.cls), a, strip(f.dem.split("(", 1)[1])), "%s reads %s of the object under construction before it has a value" % (f.dem, a), hit[0])
    # runners: what the constructors leave open must be written by the worker thread before it is read
    thr = {f.cls: f for f in mod.functions.values() if f.defined and f.src == "thread_runner_impl"}
    if len(thr) < 3: raise AnalysisBroken("found %d worker bodies" % len(thr))
    for cls, tf in sorted(thr.items()):
        mem = []
        for off, c in [(0, cls)] + bases(mod, cls):
            mem += [("%s::%s" % (c.split("::")[-1], a), off + o, k) for a, o, k in mod.types[c]["members"] if k[0] in SCALAR]
        fl = Flow(mod)
        fl.indirect = lambda f, ins, k, cls=cls: [g for g in mod.functions.values() if g.defined and g.cls == cls and g.src == "feed_callback"]
        _, reads = fl.summary(tf, 0)
        dts = [g for g in mod.functions.values() if g.defined and g.cls == cls and re.search(r"::~\w+\(\)$", g.dem)]
        dreads = {}
        for g in dts: dreads.update(fl.summary(g, 0)[1])
        if not left.get(cls): raise AnalysisBroken("no constructor of %s" % cls)
        for f, w in left[cls]:
            for a, o, k in mem:
                if set(range(o, o + k[2])) <= w: 
                    C.obligation("%s: %s set by the constructor" % (f.dem, a)); continue
                hit = [l for x, l in list(reads.items()) + list(dreads.items()) if o <= x < o + k[2]]
                C.obligation("%s: %s set by the worker thread before any read" % (f.dem, a), not hit)
                if hit:
                    C.violation("uninit-read:%s:%s" % (strip(cls), a), "%s leaves %s open and it is read before anything writes it" % (f.dem, a), hit[0])
    if len(ncls) < 60: raise AnalysisBroken("constructors of only %d classes found" % len(ncls))
    C.stats.update(classes=len(ncls), constructors=len(seen), checker_cmd="python3 /verif/checks/P26.py")
    C.finish("For every constructor in namespace Centaurus the compiled body is analysed path by path (calls summarised): each plain attribute must be stored a defined value on every path to the normal return. "
             "For runners, attributes the constructor leaves open must not be read by the worker thread or the destructor before they are written.", min_obl=200)


report.main(main)
