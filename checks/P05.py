"""P05: determinising and minimising an automaton keeps its language."""
import sys, os, re, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import ir, report
from ir import AnalysisBroken
from autom import *

L = lambda *p: frozenset(p)
isvec = lambda n, k: k[0] == "class" and k[1].startswith("std::vector<")


class Dfa:
    def __init__(self, C, mod, T):
        self.C = C; self.mod = mod; self.T = T; self.lay = Plain(mod, T)
        self.cls = "Centaurus::DFA<%s>" % T; self.st_cls = "Centaurus::DFAState<%s>" % T
        if self.cls not in mod.types or self.st_cls not in mod.types: raise AnalysisBroken("no layout of " + self.cls)
        self.o_states = offset_of(mod, self.cls, isvec); self.o_trans = offset_of(mod, self.st_cls, isvec)
        self.o_acc = offset_of(mod, self.st_cls, lambda n, k: "accept" in n); self.size = mod.types[self.st_cls]["size"]
        if self.o_acc is None: raise AnalysisBroken("no accept flag in " + self.st_cls)
        self.ctor = mod.one(r"^Centaurus::DFA<%s>::DFA\(Centaurus::NFA<%s> const&, bool\)$" % (T, T))
        self.n = 0

    def where(self): return "%s:%s" % (self.ctor.file, self.ctor.line)

    def one(self, states, opt):
        self.n += 1
        E = ConcreteEngine(self.mod, Deep(), max_time=300); E.maxdepth = 600
        st = State(); st.mon["facts"] = {}; st.mon["cur"] = 0
        no = st.new(self.lay.s_nfa, "heap"); do = st.new(self.mod.types[self.cls]["size"], "heap")
        self.lay.write(st, Ptr(no, 0), states)
        E.start(st, self.ctor, [Ptr(do, 0), Ptr(no, 0), opt])
        try:
            rets = list(E.run([st]))
        except Violation as v:
            if v.rule == "endless": self.fail("dfa:endless", v.msg, states); return
            raise
        for kind, s, v in rets:
            if kind != "ret": self.fail("dfa:%s" % kind, "building the deterministic automaton ends in %s" % {"abort": "a failed assertion", "throw": "an exception"}.get(kind, kind), states); continue
            d = self.lay.states(s, Ptr(do, 0), self.o_states, self.size, self.o_trans, (self.o_acc,))
            self.judge(states, d, opt)
        if not rets: raise AnalysisBroken("no exit")

    def judge(self, nfa, dfa, opt):
        what = "minimised " if opt else ""
        if not dfa: self.fail("dfa:empty", "the %sautomaton has no state" % what, nfa); return
        A, bad = nfa_of([t for t, _ in dfa])
        if bad: self.fail("dfa:dangling", bad, nfa); return
        for i, (t, _) in enumerate(dfa):
            seen = set()
            for s, d in t:
                if not s: self.fail("dfa:epsilon", "state %d of the deterministic automaton has an epsilon transition" % i, nfa); return
                if s & seen: self.fail("dfa:ambiguous", "state %d of the deterministic automaton has two transitions for one character" % i, nfa); return
                seen |= s
        acc = frozenset(i for i, (_, e) in enumerate(dfa) if e[0] & 1)
        B, _ = nfa_of(nfa)
        r = differ((A, {0}, acc), (B, {0}, frozenset([len(nfa) - 1])))
        if r: self.fail("dfa:language", "the %sdeterministic automaton %s the word \"%s\", the expression does not agree" % (what, "accepts" if r[1] else "refuses", " ".join(str(x) for x in r[0])), nfa)

    def fail(self, key, msg, nfa):
        t = "; ".join("%d->%d on %s" % (i, d, "epsilon" if not s else "".join("abcdef"[x] for x in sorted(s))) for i, ts in enumerate(nfa) for s, d in ts)
        self.C.violation(key, "%s (automaton %s)" % (msg, t), self.where())


def loops(full):
    """all automata of three states as the expression reader builds them: state 0 only enters state 1"""
    lab = [None, [L(0)], [L(1)], [L(0, 1)]]
    eps = [[L()], [L(), L(0)]]
    for a, b, c, d in itertools.product(lab, lab[1:] + eps, lab + eps[:1], lab):
        g = [[(L(), 1)], [], []]
        for i, j, x in ((1, 1, a), (1, 2, b), (2, 1, c), (2, 2, d)):
            for s in x or (): g[i].append((s, j))
        if not full and a and d and a != d: continue
        yield g


def splits():
    """three ways out with labels that overlap in every way"""
    lab = [L(0), L(0, 1), L(1, 2), L(0, 2), L(0, 1, 2)]
    for n, (a, b, c) in enumerate(itertools.product(lab, repeat=3)):
        back = lab[n % 5]
        yield [[(L(), 1)], [(a, 2), (b, 3), (c, 4)], [(L(), 4), (back, 3)], [(L(0, 2), 4), (back, 2)], []]


def chains():
    """longer epsilon paths and cycles; states that differ only in acceptance"""
    for a, b in itertools.product([L(0), L(1), L(0, 2)], repeat=2):
        yield [[(L(), 1)], [(a, 2), (L(), 3)], [(L(), 1), (b, 4)], [(L(), 4), (b, 2)], [(L(), 2), (L(), 5)], []]
        yield [[(L(), 1)], [(a, 2), (b, 3)], [(a, 4), (L(), 5)], [(a, 4)], [(b, 5), (L(), 1)], []]
        yield [[(L(), 1)], [(a, 2)], [(L(), 3)], [(L(), 2), (L(), 4), (b, 1)], [(a, 4), (L(), 5)], []]
        yield [[(L(), 1)], [(a, 2), (b, 3)], [(a, 4)], [(a, 5)], [(b, 6), (L(), 6)], [(b, 6)], []]


def main():
    C = report.Check("P05", "bounded", "abstract interpretation of determinisation and minimisation on operand automata whose letters stand for consecutive intervals of characters; language equivalence by product search")
    mod = ir.compile_tu(ir.VERIF + "/tu/core.cpp")
    work = [(g, 1) for g in loops(C.tier == "thorough")] + [(g, 1) for g in splits()] + [(g, o) for g in chains() for o in (0, 1)]
    work += [(g, 0) for n, g in enumerate(loops(True)) if C.tier == "thorough" or n % 7 == 0]
    names = ["all automata of three states the expression reader can build", "labels that overlap in every way", "epsilon paths and cycles, states that differ only in acceptance"]
    def job(k):
        def j(c):
            d = Dfa(c, mod, "char"); part = work[k::8]
            for g, o in part: d.one(g, o)
            c.obligation("deterministic automaton: same language, one transition per character, no epsilon (share %d of 8: %s)" % (k + 1, "; ".join(names)), not c.viol, automata=len(part))
            c.stats.update(automata=len(part))
        return j
    report.parallel(C, [job(k) for k in range(8)])
    C.finish("DFA(const NFA&, bool) with everything it calls (closures, departure sets, minimisation, filtering) is interpreted on operand automata; letters stand for consecutive intervals of characters of any width. "
             "The deterministic automaton in memory at the return must have the language of its operand, at most one transition for a character, no epsilon transition and no transition to a missing state; recursion must end.",
             min_obl=8, assumptions=["the operand's states are those of an expression: nothing leads into state 0"])


report.main(main)
