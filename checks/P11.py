"""P11: the prediction network of a rule mirrors the rule's network."""
import sys, os, re, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import ir, report
from ir import AnalysisBroken
from autom import *
from catn import *

L = lambda *s: frozenset(ord(c) for c in s)
T = lambda s: [ord(c) for c in s]
ONE = [[(L(), 1)], [(L("p"), 2)], []]
LOOP = [[(L(), 1)], [(L("p", "q"), 2)], [(L(), 1)]]
OPT = [[(L(), 1)], [(L(), 2), (L("p"), 2)], [(L("q"), 2)]]
ATOMS = {"n": ("nonterminal", T("N")), "m": ("nonterminal", T("MN")), "l": ("literal", T("a")), "L": ("literal", T("ab")), "z": ("literal", []),
         "r": ("regex", ONE), "R": ("regex", LOOP), "O": ("regex", OPT), "w": ("ws", None), "b": ("blank", None)}


def valid(g):
    n = len(g); seen = {0}; todo = [0]; deg = [0] * n
    for _, trs in g:
        for d in trs: deg[d] += 1
    while todo:
        for d in g[todo.pop()][1]:
            if d not in seen: seen.add(d); todo.append(d)
    # what matches characters has one way in; the start has none; every node is reachable and the last is the only one without a way out
    return len(seen) == n and not deg[0] and not any(k != "b" and deg[i] > 1 for i, (k, _) in enumerate(g))


def nets(n, kinds, most):
    """all networks of n nodes, the first and the last blank"""
    dests = range(1, n)
    outs = [o for m in range(1, most + 1) for o in itertools.permutations(dests, m)]
    for ks in itertools.product(kinds, repeat=n - 2):
        ks = ("b",) + ks + ("b",)
        for os_ in itertools.product(outs, repeat=n - 1):
            g = [(k, o) for k, o in zip(ks, os_ + ((),))]
            if valid(g): yield g


def spaced(g):
    """every literal and every expression behind its white space"""
    pos = []; n = 0
    for k, _ in g: pos.append(n); n += 1 if k in "bnm" else 2
    out = []
    for i, (k, trs) in enumerate(g):
        if k not in "bnm": out.append(("w", (pos[i] + 1,)))
        out.append((k, tuple(pos[d] for d in trs)))
    return out


def tagged(g, how):
    """priorities: none, rising or falling with the alternatives"""
    g = spaced(g); out = []
    for k, trs in g:
        ty, what = ATOMS[k]
        m = len(trs)
        out.append((ty, what, [(d, 0 if how == 0 or m < 2 else j if how == 1 else m - 1 - j) for j, d in enumerate(trs)]))
    return out


class Run(Import):
    def __init__(self, C, mod): Import.__init__(self, mod, "char"); self.C = C; self.n = 0
    def where(self): return "%s:%s" % (self.ctor.file, self.ctor.line)
    def fail(self, key, msg, g):
        def show(ty, what): return {"blank": "o", "ws": "_"}.get(ty) or ("/%s/" % len(what) if ty == "regex" else "'%s'" % "".join(map(chr, what)) if ty == "literal" else "".join(map(chr, what)))
        t = "; ".join("%d %s -> %s" % (i, show(ty, w), ",".join("%d" % d + (":%d" % x if x else "") for d, x in trs)) for i, (ty, w, trs) in enumerate(g))
        self.C.violation(key, "%s (rule network %s)" % (msg, t), self.where())
    def one(self, g):
        self.n += 1
        rets = self.run(g)
        if not rets: raise AnalysisBroken("no exit")
        for kind, s, p in rets:
            if kind != "ret": self.fail("catn:" + kind, "building the prediction network ends in %s" % {"abort": "a failed assertion", "throw": "an exception"}.get(kind, kind), g); continue
            m = self.read(s, p)
            if not m: self.fail("catn:empty", "the prediction network has no node", g); continue
            B, bad = machine_graph(m)
            if bad: self.fail("catn:dangling", bad, g); continue
            r = differ(B.auto(), rule_graph(g, self.WS).auto())
            if r:
                w = " ".join(chr(x) if isinstance(x, int) else x[0] if isinstance(x, tuple) and x[0] == "odd" else "%s:%s" % (x[0], "".join(map(chr, x[1])) if x[0] == "name" else x[1]) for x in r[0])
                self.fail("catn:language", "the prediction network %s the word \"%s\", the rule's network does not agree" % ("has" if r[1] else "has not", w), g); continue
            for i, (ty, what, trs) in enumerate(g):
                if len(trs) < 2: continue
                for k, j in self.locate(s, p, i):
                    if k != "ret" or not isinstance(j, int): raise AnalysisBroken("convert_atn_index not understood")
                    if not 0 <= j < len(m): self.fail("catn:lost", "the decision at node %d has no counterpart" % i, g); continue
                    out = m[j][1]
                    if len(out) != len(trs): self.fail("catn:alternatives", "the decision at node %d has %d alternatives, its counterpart %d" % (i, len(trs), len(out)), g); continue
                    for x, ((d, t), (sy, dd, tt)) in enumerate(zip(trs, out)):
                        if sy: self.fail("catn:consumes", "alternative %d of the decision at node %d consumes a character before it is entered" % (x + 1, i), g); break
                        if t != tt: self.fail("catn:rank", "alternative %d of the decision at node %d has priority %d, its counterpart %d" % (x + 1, i, t, tt), g); break
                    else: self.order(g, i, m, j)

    def order(self, g, i, m, j):
        """alternative k of the decision leads where alternative k of its counterpart leads"""
        for x, (d, t) in enumerate(g[i][2]):
            P = rule_graph_at(g, d, self.WS); Q, _ = machine_graph_at(m, m[j][1][x][1])
            r = differ(Q.auto(), P.auto())
            if r: self.fail("catn:order", "alternative %d of the decision at node %d is not alternative %d of its counterpart" % (x + 1, i, x + 1), g); return


def rule_graph_at(g, d, WS):
    r = rule_graph([("blank", None, [(d + 1, 0)])] + [(ty, w, [(x + 1, t) for x, t in ts]) for ty, w, ts in g], WS); return r


def machine_graph_at(m, d):
    return machine_graph([(None, [(frozenset(), d + 1, 0)])] + [(n, [(s, x + 1, t) for s, x, t in ts]) for n, ts in m])


def main():
    C = report.Check("P11", "bounded", "abstract interpretation of the construction of the prediction network on operand rule networks in memory; language equivalence by product search")
    mod = ir.compile_tu(ir.VERIF + "/tu/core.cpp")
    deep = C.tier == "thorough"
    work = [tagged(g, h) for g in nets(3, "nmlLzrROb", 2) for h in ((0, 1, 2) if any(len(t) > 1 for _, t in g) else (0,))]
    four = [tagged(g, n % 3) for n, g in enumerate(nets(4, "nLzRb", 2))]
    work += four if deep else four[::3]
    def job(k):
        def j(c):
            r = Run(c, mod); part = work[k::8]
            for g in part: r.one(g)
            c.obligation("prediction network: same words and priorities as the rule's network; every decision keeps its alternatives, in order, none of them consuming (share %d of 8)" % (k + 1), not c.viol, networks=len(part))
            c.stats.update(networks=len(part))
        return j
    report.parallel(C, [job(k) for k in range(8)])
    C.finish("CATNMachine(const ATNMachine&) and convert_atn_index are interpreted on every rule network of three nodes (nine kinds of node) and on networks of four; literals are taken character by character, expressions by their automaton. "
             "The network in memory at the return must have the rule network's words (characters, names of rules, priorities) and hold each decision with the same alternatives in the same order.", min_obl=8,
             assumptions=["the operand network is one the rule reader builds: a literal or an expression stands behind a white space node and has a single way in, the last node is blank and is the only one without a way out"])


report.main(main)
