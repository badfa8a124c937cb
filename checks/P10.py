"""P10: reading a grammar ends on every text, and never accepts one that stops inside a statement."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import ir, report
from ir import AnalysisBroken
from reading import *


def strip(s):
    return re.sub(r"<[^<>]*>", "", re.sub(r"\[abi:\w+\]", "", s)).split("(")[0]


def reading_roots(mod, rd):
    roots = []
    for f in sorted((mod.functions[n] for n in rd), key=lambda f: f.dem):
        if not f.defined or f.dem.startswith("verif") or f.dem.startswith("Centaurus::Stream::"): continue
        if "Centaurus::Stream&" in (params(f.dem) or ()): roots.append((f, True))
        elif re.match(r"Centaurus::Grammar<\w[\w ]*>::parse\(char const\*", f.dem): roots.append((f, False))
    return roots


def work(C, mod, rd, roots):
    """one character type"""
    sm = summarised(mod, rd)
    dom = TextDomain(); dom.monitors = [Statement()]
    E = TextEngine(mod, dom, rd, sm, max_states=600000)
    nex = 0
    for f, has in roots:
        st = stream_state(mod, E, dom) if has else fresh()
        if has: st.mon["stmt"] = ("unknown", None)
        ps = params(f.dem); n = len(f.args) - len(ps)
        args = [Ptr(st.mon["stream"], 0) if i >= n and ps[i - n] == "Centaurus::Stream&" else OPQ for i in range(len(f.args))]
        E.start(st, f, args)
        ex = []
        try:
            E.explore(st, lambda *r: ex.append(r))
        except Violation as v:
            if v.rule not in ("past-end-read", "past-end-move", "cursor-back"): raise
            C.violation("%s:%s" % (v.rule, v.loc), v.msg, v.loc, v.st.trace_list() if v.st else [])
            break
        nex += len(ex)
        C.obligation("%s: every loop that looks at the text consumes some of it; can succeed" % f.dem, True, file=f.file, line=f.line)
        if not any(r[0] == "ret" for r in ex):
            C.violation("never-succeeds:%s" % strip(f.dem), "%s refuses every text" % f.dem, "%s:%s" % (f.file, f.line))
        if not has:
            C.obligation("%s: a text that stops inside a statement is refused" % f.dem)
            for kind, s, rv in ex:
                if kind == "ret" and dom.monitors[0].final(dom, s) == "inside":
                    C.violation("cut-off-accepted:%s" % strip(f.dem), "%s accepts a text that ends inside a statement" % f.dem, "%s:%s" % (f.file, f.line), s.trace_list())
    for comp in stuck_loops(E):
        f, loc = comp[0]
        fs = sorted({strip(g.dem) for g, _ in comp})
        C.violation("no-progress:%s" % "+".join(fs), "a loop in %s goes round without consuming text (at the end of the text it never ends)" % ", ".join(fs), "; ".join(l for _, l in comp))
    for comp in stuck_calls(E):
        fs = sorted({strip(x) for x in comp})
        C.violation("no-progress-call:%s" % "+".join(fs), "%s can call each other for ever without consuming text" % ", ".join(fs))
    C.stats.update(summaries=len(E.sums), graph_nodes=len(E.nodes), graph_edges=len(E.edges), exits=nex, text_reads=dom.nread)


def main():
    C = report.Check("P10", "proof", "abstract interpretation of the grammar readers: ranking by text consumed, recursion by summaries")
    mod = ir.compile_tu(ir.VERIF + "/tu/core.cpp")
    rd, rec, cg = readers(mod)
    roots = reading_roots(mod, rd)
    if sum(1 for f, s in roots if not s) < 3: raise AnalysisBroken("Grammar::parse not found")
    if len(roots) < 40: raise AnalysisBroken("only %d reading functions" % len(roots))
    groups = {}
    for f, has in roots:
        m = re.search(r"<(char|unsigned char|wchar_t)>", f.dem)
        groups.setdefault(m.group(1) if m else "", []).append((f, has))
    report.parallel(C, [lambda c, g=g: work(c, mod, rd, g) for _, g in sorted(groups.items())])
    if C.stats["text_reads"] < 40: raise AnalysisBroken("only %d reads of the text seen" % C.stats["text_reads"])
    C.stats.update(readers=len(rd), roots=len(roots))
    C.finish("Every function that reads a grammar text is interpreted on a text of unknown characters. Each cycle of the resulting state graph and each recursive call chain that looks at the text "
             "must consume at least one character (so reading ends on every finite text); the cursor never passes the end; a normal return of Grammar::parse with a statement open is a violation.",
             min_obl=40, assumptions=["the text holds no NUL characters", "loops over containers and counters end (they read no text or are bounded by a counter)", "files do not include themselves"])


report.main(main)
