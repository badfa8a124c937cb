"""P13: the predictor of a decision takes an alternative exactly when the text leaves no other."""
import sys, os, re, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import ir, report
from ir import AnalysisBroken
from engine import Violation
from predict import *


class Net:
    """a rule's network, character by character, as the import leaves it"""
    def __init__(self): self.n = [[None, []]]
    def node(self, frm, letters="", tag=0, name=None):
        self.n.append([name, []]); i = len(self.n) - 1
        if frm is not None: self.n[frm][1].append((letters, i, tag))
        return i
    def eps(self, a, b, tag=0): self.n[a][1].append(("", b, tag))
    def add(self, x, at, tag=0):
        """fragment x behind node at, entered with the tag; its last node"""
        if isinstance(x, str):
            if x == "": return self.node(at, "", tag)
            for c in x:
                if c.isupper(): at = self.node(at, "", tag, c)
                elif c == "_": at = self.node(at, "", tag); self.n[at][1].append((" ", at, 0))
                else:
                    if self.n[at][0]: at = self.node(at, "", tag); tag = 0       # what follows a call is entered without reading
                    at = self.node(at, c, tag)
                tag = 0
            return at
        op, *xs = x
        if op == "seq":
            for y in xs: at = self.add(y, at, tag); tag = 0
            return at
        if op in ("alt", "rank"):
            d = self.node(at, "", tag); ends = []
            for k, y in enumerate(xs):
                b = self.node(d, "", k + 1 if op == "rank" else 0)
                ends.append(self.add(y, b))
            j = self.node(None)
            for e in ends: self.eps(e, j)
            return j
        if op == "opt":
            d = self.node(at, "", tag); b = self.node(d); e = self.add(xs[0], b); j = self.node(d); self.eps(e, j); return j
        if op == "star":
            d = self.node(at, "", tag); b = self.node(d); e = self.add(xs[0], b); self.eps(e, d); return self.node(d)
        if op == "plus":
            b = self.node(at, "", tag); d = self.node(self.add(xs[0], b)); self.eps(d, b); return self.node(d)
        raise AnalysisBroken("fragment " + op)
    def done(self): return [(a, b) for a, b in self.n]


def net(x):
    m = Net(); e = m.add(x, 0)
    if m.n[e][1] or m.n[e][0]: e = m.node(e)
    else:
        e = m.node(e)
    return m.done()


def decisions(nodes): return [i for i, (n, t) in enumerate(nodes) if len(t) > 1 and all(not s for s, _, _ in t)]


A = ["a", "ab", "abc", "b", ("alt", "a", "b"), ("alt", "ab", "ac"), ("seq", ("opt", "a"), "b"), ("seq", ("star", "a"), "b"), ("seq", ("star", "ab"), "c"), ("plus", "a"), "S", "Sb", "aS", "_a"]
N = ["", ("opt", "a"), ("star", "b")]
SUB = ["a", "ab", ("alt", "a", "b"), ("opt", "a"), ("seq", ("alt", "a", "b"), "c"), ("star", "a"), ("rank", "ab", "a"), "bT"]
TAIL = ["", "a", "b", "cb", "S", ("opt", "c")]


def rules(**k):
    r = {n: net(x) for n, x in k.items()}
    if any("T" in str(x) for x in k.values()) and "T" not in r: r["T"] = net(("alt", "a", "c"))
    return r


def cases(deep):
    n = 0
    yield rules(R=("seq", ("star", ("opt", "a")), "b")), "R", 1              # a loop whose body may be empty
    for x, y in itertools.product(A + N, repeat=2):                          # two alternatives, what follows
        for k, op in enumerate(("alt", "rank")):
            n += 1
            yield rules(R=("seq", (op, x, y), TAIL[(n // 2) % len(TAIL)]), S=SUB[n % len(SUB)]), "R", 0
    for n, (x, t) in enumerate(itertools.product(A, TAIL)):                  # optional parts and loops
        yield rules(R=("seq", (("opt", "star", "plus")[n % 3], x), t), S=SUB[n % len(SUB)] if n % 3 == 0 else SUB[n % 3]), "R", 0
    for n, (x, y) in enumerate(itertools.product(A[:10], repeat=2)):         # a decision in a rule that is used in several places
        z = (A + N)[(3 * n) % len(A + N)]
        yield rules(Q=("alt", ("seq", "dR", x), ("seq", "eR", y)), R=("alt", z, "ab") if n % 2 else ("seq", "b", ("opt", "a")), S=SUB[n % len(SUB)]), "R", n % 2
    for n, (x, y) in enumerate(itertools.product(A[:9], repeat=2)):          # three alternatives, ranked or not; inner ranks
        z = A[(5 * n + 2) % len(A)]; w = ("rank", x, z)
        yield rules(R=("seq", ("rank" if n % 3 else "alt", x, y, z), TAIL[n % len(TAIL)]), S=SUB[n % len(SUB)]), "R", 0
        yield rules(R=("seq", ("alt", w, y), TAIL[n % len(TAIL)]), S=SUB[n % len(SUB)]), "R", 0


def text(r):
    return "; ".join("%s : %s" % (m, " ".join("%d%s>%s" % (i, n or "", ",".join("%s%d%s" % ("'%s'" % s if s else "", d, ":%d" % t if t else "") for s, d, t in tr)) for i, (n, tr) in enumerate(ns))) for m, ns in r.items())


def one(C, p, r, root, which, opt, where):
    i = decisions(r[root])
    if not i: return "none"
    i = i[0] if which == 0 else i[-1]
    at = where
    P = Places(r, (root, i), any(t for ns in r.values() for _, tr in ns for _, _, t in tr))
    try: res = p.run(r, (root, i), opt)
    except Violation as e:
        C.violation("endless:" + text(r) if "without end" in str(e) else "predict:violation", "building the predictor: %s (decision %d of %s; %s)" % (e, i, root, text(r)), at); return "bad"
    out = "ok"
    for k, tb in res:
        if k == "throw": out = "throw"; continue
        if k != "ret": C.violation("predict:" + k, "building the predictor ends in %s (decision %d of %s; %s)" % ("a failed assertion" if k == "abort" else k, i, root, text(r)), at); continue
        try: j, n = judge(tb, P)
        except Skip as e: out = "skip: " + str(e); continue
        if j: C.violation("predict:" + j[0], "%s (decision %d of %s%s; %s)" % (j[1], i, root, ", optimised" if opt else "", text(r)), at); out = "bad"
    return out


def main():
    C = report.Check("P13", "bounded", "abstract interpretation of the construction of the predictor on operand networks in memory; comparison of its table with the places the text can have led to")
    mod = ir.compile_tu(ir.VERIF + "/tu/core.cpp"); deep = C.tier == "thorough"
    work = [(w, o) for n, w in enumerate(cases(deep)) for o in ((0, 1) if deep else (n % 2,))]
    known = {k["key"] for k in report.load_known("P13")}
    def job(k):
        def j(c):
            p = Predict(mod); where = "%s:%s" % (p.build.file, p.build.line); cnt = {}
            part = work[k::8]
            for (r, root, w), o in part:
                x = one(c, p, r, root, w, o, where); x = x.split(":")[0]; cnt[x] = cnt.get(x, 0) + 1
            c.obligation("predictor: every text is decided for the only alternative left, at once, and refused if none is left (share %d of 8)" % (k + 1), all(v["key"] in known for v in c.viol), networks=len(part), outcome=cnt)
            c.stats.update(networks=len(part), judged=cnt.get("ok", 0), not_judged=sum(v for a, v in cnt.items() if a in ("skip", "throw", "none")))
            if cnt.get("ok", 0) < len(part) // 2 and all(v["key"] in known for v in c.viol): raise AnalysisBroken("only %d of %d predictors could be judged: %s" % (cnt.get("ok", 0), len(part), cnt))
        return j
    report.parallel(C, [job(k) for k in range(8)])
    C.finish("LookaheadDFA(const CompositeATN&, const ATNPath&, bool) is interpreted on composite networks laid out in memory: decisions of two and three alternatives, options, loops, ranked choices, decisions below and above calls, in rules used in "
             "several places. The table at the return is walked beside the set of places (alternative, calls, node) the text read so far can have led to, superior alternatives expelling inferior ones: where one alternative is left it must be decided, where "
             "several are left it must not, where none is left the text must be refused.", min_obl=8,
             assumptions=["recursive rules: the predictor may be refused (an exception); the networks tried are not recursive", "networks in which one place is reached by ways of different rank are not judged"])


report.main(main)
