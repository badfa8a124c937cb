"""P01: the set algebra on character classes is exact and canonical."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from concurrent.futures import ProcessPoolExecutor
import ir
from ir import AnalysisBroken
from engine import *
from engine import AV
from containers import *
from ordlist import *
import report

TYPES = [("char", 255), ("unsigned char", 255), ("wchar_t", 0x7fffffff)]
CLASSES = ["zero", "one", "mid"]


class Setup:
    def __init__(self, mod, t, hi, cls, k=1):
        self.mod = mod; self.t = t; self.q = re.escape(t)
        so, eo, w, size, vp = range_layout(mod, t)
        self.ld = RangeLD(k, so, eo, w, size, vp)
        self.dom = OrdDomain(self.ld, "Centaurus::Range<%s>" % t, hi, cls)
        self.E = Engine(mod, self.dom, max_time=500); install(self.E)
        self.cls = cls
        self.voff = self.vec_offset()
        self.et = "Centaurus::Range<%s>" % t

    def vec_offset(self):
        f = self.mod.one(r"^Centaurus::CharClass<%s>::CharClass\(\)$" % self.q)
        st = State(); oid = st.new(64, "obj")
        self.E.start(st, f, [Ptr(oid, 0)])
        r = list(self.E.run([st]))
        if len(r) != 1 or r[0][0] != "ret": raise AnalysisBroken("default constructor of CharClass")
        offs = [a for a, c in r[0][1].mem[oid].cells.items() if isinstance(c[1], Vec)]
        if len(offs) != 1: raise AnalysisBroken("CharClass holds %d lists" % len(offs))
        self.ccsize = max(x["size"] for n, x in self.mod.structs.items() if re.match(r"^class\.Centaurus::CharClass(\.\d+)?$", n))
        self.proto = {a: c for a, c in r[0][1].mem[oid].cells.items() if not isinstance(c[1], Vec)}
        return offs[0]

    def operand(self, st):
        oid = st.new(64, "obj", dict(self.proto))
        st.mem[oid].cells[self.voff] = (24, Vec(self.et, tail=TailTok(-1)))
        return oid

    def range_obj(self, st, s, e):
        a = fresh_tok(st, s); b = fresh_tok(st, e)
        if s == e: add_fact(st, a.i, b.i, (-1,))
        cells = {self.ld.soff: (self.ld.w, a), self.ld.eoff: (self.ld.w, b)}
        if self.ld.vptr is not None: cells[0] = (8, self.ld.vptr)
        return st.new(self.ld.size, "elem", cells)

    def fn(self, pat):
        return self.mod.one(r"^Centaurus::CharClass<%s>::%s$" % (self.q, pat.replace("CC", r"Centaurus::CharClass<%s>" % self.q).replace("RR", r"Centaurus::Range<%s>" % self.q).replace("TT", self.q)))

    def vecs(self, st, oid):
        return [c[1] for a, c in sorted(st.mem[oid].cells.items()) if isinstance(c[1], Vec)]

    def completions(self, st, v):
        """all summaries of v once its unread tail is known"""
        pre = self.ld.summary(self.E, st, v)
        out = set(); seen = set(); work = [(pre, v.tail)]
        while work:
            p, t = work.pop()
            if (p, t and t[0]) in seen: continue
            seen.add((p, t and t[0]))
            if t is None: out.add(p); continue
            for alt in self.ld.gen(self.E, st, t):
                if alt[0] == "end": work.append((p, None)); continue
                c = dict(alt[1]); o = Summary.one(c[self.ld.soff][1].t, c[self.ld.eoff][1].t, self.ld.k)
                work.append((o if p is None else p.then(o), alt[2]))
        return out


def member(s, p=1):
    return s is not None and ("m", p) in s.mem


def run(S, f, args, st, check):
    """check(kind, state, value) -> error message or None"""
    probs = []
    st.mon["roots"] = tuple(x for x in args if isinstance(x, Ptr))
    S.E.start(st, f, args)
    n = 0
    try:
        for kind, s, v in S.E.run([st]):
            n += 1
            m = check(kind, s, v)
            if m:
                probs.append((m, "%s:%s" % (f.file, f.line), s.trace_list()))
                if len(probs) > 2: break
    except Violation as v:
        probs.append((v.msg, v.loc, v.st.trace_list() if v.st else []))
    return n, probs


def combos(S, s, ids):
    """all completions of the operands: yields tuple of summaries"""
    cs = []
    for i in ids:
        cs.append(S.completions(s, getvec(s, (i, S.voff))))
    def rec(k, acc):
        if k == len(cs): yield tuple(acc); return
        for c in cs[k]: yield from rec(k + 1, acc + [c])
    yield from rec(0, [])


def check_result(S, s, rid, ids, want, what, nout=1, only=0):
    vs = S.vecs(s, rid)
    if len(vs) != nout: return "%s: result holds %d range lists instead of %d" % (what, len(vs), nout)
    for k, v in enumerate(vs):
        if k != only: continue
        if v.tail is not None: raise Unsupported("result shares an unread tail")
        r = S.ld.summary(S.E, s, v)
        if r is not None and not r.ok:
            return "%s: the result%s is not a sorted list of disjoint non-empty ranges (around an arbitrary character x, %s)" % (what, "" if nout == 1 else " #%d" % k, S.cls)
        for c in combos(S, s, ids):
            w = want(k, *[member(x) for x in c])
            if w is None: continue
            if member(r) != w:
                return "%s: an arbitrary character x is%s in the result although operand membership is %s" % (what, "" if member(r) else " not", [member(x) for x in c])
    return None


def task(a):
    name, ti, cls = a
    t, hi = TYPES[ti]
    mod = ir.compile_tu(ir.VERIF + "/tu/charclass.cpp")
    S = Setup(mod, t, hi, cls)
    return name, t, cls, decide(S, OBL[name])


def decide(S, fn):
    for precise in (False, True):
        PRECISE[0] = precise
        try:
            res = fn(S)
        except NeedFull:
            S.ld.lean = False
            res = fn(S)
        if not any(r[1] for r in res): break
    return res


def binary(pat, want, nout=1, which=None):
    def go(S):
        f = S.fn(pat)
        st = State(); a = S.operand(st); b = S.operand(st)
        r = st.new(256, "obj")
        out = []
        for only in (range(nout) if which is None else [which]):
            # one output at a time: the contents of the others are erased, which only adds behaviours
            S.dom.blind = [(r, k * S.ccsize + S.voff) for k in range(nout) if k != only]
            def w2(k, *m): return want(k, *m) if k == only else None
            out.append(run(S, f, [Ptr(r, 0), Ptr(a, 0), Ptr(b, 0)], st.fork(), lambda k, s, v: check_result(S, s, r, [a, b], w2, f.dem, nout, only) if k == "ret" else bad_end(k, v, f)))
        S.dom.blind = ()
        return out
    return go


def bad_end(k, v, f):
    return "%s ends in %s (%s) for some operands" % (f.dem, k, v)


class Fixed:
    pass


def summaries_upto(S):
    """all reachable (summary, explicit words) of canonical lists, by a representative closed list per summary"""


def obl_not(S):
    f = S.fn(r"operator~\(\) const")
    st = State(); a = S.operand(st); r = st.new(256, "obj")
    def want(k, m):
        if S.cls == "zero": return False
        return not m
    return [run(S, f, [Ptr(r, 0), Ptr(a, 0)], st, lambda k, s, v: check_result(S, s, r, [a], want, f.dem) if k == "ret" else bad_end(k, v, f))]


def ranges(S):
    for s in range(0, 3):
        for e in range(s, 3):
            if before(s, e) and not (S.cls == 'one' and s == e == 0) and S.dom.feasible(s) and S.dom.feasible(e): yield s, e


def obl_or_range(S):
    f = S.fn(r"operator\|\(RR\) const")
    out = []
    for s0, e0 in ranges(S):
        st = State(); a = S.operand(st); r = st.new(256, "obj"); g = S.range_obj(st, s0, e0)
        inr = s0 <= 1 < e0
        out.append(run(S, f, [Ptr(r, 0), Ptr(a, 0), Ptr(g, 0)], st, lambda k, s, v: check_result(S, s, r, [a], lambda k, m: m or inr, f.dem) if k == "ret" else bad_end(k, v, f)))
    return out


def closed_operand(S, st, word):
    oid = st.new(64, "obj", dict(S.proto))
    es = []
    prev = None
    for s, e in word:
        o = S.range_obj(st, s, e); es.append(o)
        c = st.mem[o].cells; a = c[S.ld.soff][1]
        if prev is not None and prev.t == a.t and a.i is not None: add_fact(st, prev.i, a.i, (-1,))
        prev = c[S.ld.eoff][1]
    st.mem[oid].cells[S.voff] = (24, Vec(S.et, elems=tuple(es)))
    return oid


def rep_words(S):
    """one explicit list per (summary) reachable - used only where the operand object itself is overwritten"""
    best = {}
    work = [((), None, TailTok(-1))]
    while work:
        w, p, t = work.pop(0)
        if p in best: continue
        best[p] = w
        for alt in S.ld.gen(S.E, None, t):
            if alt[0] == "end": continue
            c = dict(alt[1]); o = Summary.one(c[S.ld.soff][1].t, c[S.ld.eoff][1].t, 1)
            work.append((w + ((o.first, o.last),), o if p is None else p.then(o), alt[2]))
    return best


def obl_append(S):
    """append(r) with r not starting before the end of the last range: union, canonical"""
    f = S.fn(r"append\(RR const&\)")
    out = []
    for p, w in rep_words(S).items():
        for s0, e0 in ranges(S):
            if p is not None and not (p.last <= s0): continue
            st = State(); a = closed_operand(S, st, w); g = S.range_obj(st, s0, e0)
            def chk(k, s, v):
                if k != "ret": return bad_end(k, v, f)
                rs = S.vecs(s, a)
                r = S.ld.summary(S.E, s, rs[0])
                # equal even ranks: the appended range may start before the last end; only the feasible order is specified
                if member(r) != (member(p) or s0 <= 1 < e0): return "%s: membership of an arbitrary x is wrong after appending" % f.dem
                if not (p is not None and p.last == s0 and s0 % 2 == 0) and not r.ok: return "%s: result is not canonical" % f.dem
                return None
            out.append(run(S, f, [Ptr(a, 0), Ptr(g, 0)], st, chk))
    return out


def obl_assign_or_range(S):
    f = S.fn(r"operator\|=\(RR const&\)")
    out = []
    for p, w in rep_words(S).items():
        for s0, e0 in ranges(S):
            st = State(); a = closed_operand(S, st, w); g = S.range_obj(st, s0, e0)
            def chk(k, s, v):
                if k != "ret": return bad_end(k, v, f)
                r = S.ld.summary(S.E, s, S.vecs(s, a)[0])
                if member(r) != (member(p) or s0 <= 1 < e0): return "%s: membership of an arbitrary x is wrong" % f.dem
                if not r.ok: return "%s: result is not canonical" % f.dem
            out.append(run(S, f, [Ptr(a, 0), Ptr(g, 0)], st, chk))
    return out


def obl_assign_or(S):
    f = S.fn(r"operator\|=\(CC const&\)")
    out = []
    for p, w in rep_words(S).items():
        st = State(); a = closed_operand(S, st, w); b = S.operand(st)
        def chk(k, s, v):
            if k != "ret": return bad_end(k, v, f)
            r = S.ld.summary(S.E, s, S.vecs(s, a)[0])
            for (c,) in combos(S, s, [b]):
                if member(r) != (member(p) or member(c)): return "%s: membership of an arbitrary x is wrong" % f.dem
            if r is not None and not r.ok: return "%s: result is not canonical" % f.dem
        out.append(run(S, f, [Ptr(a, 0), Ptr(b, 0)], st, chk))
    return out


def obl_includes_char(S):
    f = S.fn(r"includes\(TT\) const")
    st = State(); a = S.operand(st)
    def chk(k, s, v):
        if k != "ret": return bad_end(k, v, f)
        for (c,) in combos(S, s, [a]):
            if not isinstance(v, int): return "%s returns an undetermined value" % f.dem
            if bool(v & 1) != member(c): return "%s answers %s for a character that is%s a member" % (f.dem, bool(v & 1), "" if member(c) else " not")
    return [run(S, f, [Ptr(a, 0), Tok(1)], st, chk)]


def obl_includes_range(S0):
    """decided relative to the two end points of the range"""
    S = Setup(S0.mod, S0.t, S0.dom.hi, S0.cls, k=2); S.ld.lean = S0.ld.lean
    f = S.fn(r"includes\(RR const&\) const")
    st = State(); a = S.operand(st); g = S.range_obj(st, 1, 3)
    def chk(k, s, v):
        if k != "ret": return bad_end(k, v, f)
        for (c,) in combos(S, s, [a]):
            w = c is not None and ("i", 1, 3) in c.mem
            if not isinstance(v, int) or bool(v & 1) != w: return "%s answers %r although the range is%s contained" % (f.dem, v, "" if w else " not")
    return [run(S, f, [Ptr(a, 0), Ptr(g, 0)], st, chk)]


def obl_overlaps(S):
    """two classes that share the arbitrary character x overlap"""
    f = S.fn(r"overlaps\(CC const&\) const")
    st = State(); a = S.operand(st); b = S.operand(st)
    def chk(k, s, v):
        if k != "ret": return bad_end(k, v, f)
        if not isinstance(v, int): return "%s returns an undetermined value" % f.dem
        for ca, cb in combos(S, s, [a, b]):
            if member(ca) and member(cb) and not v & 1: return "%s answers false for two classes that share a character" % f.dem
    return [run(S, f, [Ptr(a, 0), Ptr(b, 0)], st, chk)]


OBL = {
    "union of two classes": binary(r"operator\|\(CC const&\) const", lambda k, a, b: a or b),
    "intersection of two classes": binary(r"operator&\(CC const&\) const", lambda k, a, b: a and b),
    "difference, first minus second": binary(r"diff_and_int\(CC const&\) const", lambda k, a, b: [a and not b, b and not a, a and b][k], nout=3, which=0),
    "difference, second minus first": binary(r"diff_and_int\(CC const&\) const", lambda k, a, b: [a and not b, b and not a, a and b][k], nout=3, which=1),
    "difference, common part": binary(r"diff_and_int\(CC const&\) const", lambda k, a, b: [a and not b, b and not a, a and b][k], nout=3, which=2),
    "complement": obl_not,
    "union with a range": obl_or_range,
    "in-place union with a range": obl_assign_or_range,
    "in-place union with a class": obl_assign_or,
    "appending a range": obl_append,
    "membership of a character": obl_includes_char,
    "containment of a range": obl_includes_range,
    "overlap test": obl_overlaps,
}


def main():
    C = report.Check("P01", "proof", "abstract interpretation: pointwise order abstraction of range lists")
    ir.compile_tu(ir.VERIF + "/tu/charclass.cpp")
    jobs = [(n, ti, c) for n in OBL for ti in range(len(TYPES)) for c in CLASSES if C.tier == "thorough" or ti == 0 or c == "mid"]
    jobs.sort(key=lambda j: (not j[0].startswith("diff"), not j[0].startswith("union of two"), not j[0].startswith("inter")))
    with ProcessPoolExecutor(8) as ex:
        for name, t, cls, res in ex.map(task, jobs):
            n = sum(r[0] for r in res)
            probs = [p for r in res for p in r[1]]
            C.obligation("%s, %s, x %s" % (name, t, cls), not probs, abstract_results=n)
            if n == 0 and not probs: raise AnalysisBroken("no abstract result for %s" % name)
            for m, w, tr in probs[:1]:
                C.violation("algebra:" + name, m + " [%s]" % t, w, tr)
    import ccmake
    core = ir.compile_tu(ir.VERIF + "/tu/core.cpp")
    for t, _ in TYPES:
        before = len(C.viol)
        n = ccmake.single(C, core, t, "made:single") + ccmake.lists(C, core, t, "made:list")
        C.obligation("a class made of a character, of characters or of a range contains exactly these, %s" % t, len(C.viol) == before, constructions=n)
    C.finish("Every operation of the class algebra is interpreted once per character type over order abstractions of all canonical range lists; "
             "the abstract result list is compared with the set-theoretic result for an arbitrary character.", min_obl=60)


if __name__ == "__main__":
    report.main(main)
