"""P08: the network built from a rule denotes exactly what the rule says."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import ir, report
from ir import AnalysisBroken
from atn import *


class Run(RuleRun):
    def go(self, C, gid):
        self.C = C
        st, mo = self.start(gid)
        n = cases = 0
        for kind, s, v in self.E.run([st]):
            n += 1; cases += self.judge(kind, s, mo, gid)
        return n, cases

    def judge(self, kind, s, mo, gid):
        cur = s.mon["cur"]; F = lambda i: self.dom.fact(s, i); done = 0
        G = None
        if kind == "ret":
            nodes = self.net.read(s, Ptr(mo, 0))
            if not nodes: self.fail("rule:empty", "the network has no node", s, {}); return 1
            G, bad = net_graph(nodes)
            if bad: self.fail("rule:dangling", bad, s, {}); return 1
        elif kind == "abort": self.fail("rule:abort", "an assertion of the library fails", s, {}); return 1
        for conc in self.choices(s):
            tok = lambda i: conc[i] if i in conc else F(i)
            done += 1
            try: ref, used = reference(tok, gid > 0)
            except Refuse:
                if kind == "ret": self.fail("rule:accepted", "a rule that is not well-formed is accepted", s, conc)
                continue
            if kind != "ret": self.fail("rule:refused", "a correct rule is refused", s, conc); continue
            if used != cur: self.fail("rule:extent", "%d tokens are consumed where the rule has %d" % (cur, used), s, conc); continue
            d = differ(G.auto(), ref.auto())
            if d: self.fail("rule:language", "the network %s \"%s\"" % ("accepts" if d[1] else "refuses", " ".join("-".join(map(str, x)) for x in d[0])), s, conc)
        return done

    def fail(self, key, msg, s, conc):
        top = max([s.mon["cur"]] + [i + 1 for i in s.mon["facts"]])
        self.C.violation(key, "rule %s %s: %s" % ("of the grammar" if self.gid > 0 else "of a fragment", self.text(s, conc, top), msg), "%s:%s" % (self.ctor.file, self.ctor.line), s.trace_list())


A = lambda t: set(map(ord, t))
CONFIGS = [(4, None, KINDS, 1), (3, None, KINDS, -1), (6, A("|>;"), ("literal",), 1), (6, A("()*;"), ("nonterminal",), 1), (6, A("()+?;"), ("literal",), 1), (5, A("()|*;"), ("regex",), 3), (6, A("()|>;"), ("nonterminal",), 1)]


def main():
    C = report.Check("P08", "bounded", "abstract interpretation of the rule reader on unknown characters; the network in memory is compared, as a language of atoms and priorities, with the notation")
    mod = ir.compile_tu(ir.VERIF + "/tu/core.cpp")
    def job(k, al, kinds, gid, T="char"):
        def j(c):
            r = Run(mod, T, k, al, kinds); r.gid = gid
            n, cases = r.go(c, gid)
            if cases < 10: raise AnalysisBroken("only %d rules compared" % cases)
            c.obligation("every %s of up to %d tokens over %s and %s denotes what it says (%s)" % ("rule" if gid > 0 else "fragment", k, "all characters" if al is None else " ".join(chr(x) for x in sorted(al)), ", ".join(kinds), T), not c.viol, exits=n, compared=cases)
            c.stats.update(exits=n, compared=cases)
        return j
    cfg = list(CONFIGS)
    if C.tier == "thorough": cfg += [(5, None, KINDS, 1), (7, A("()|>;"), ("nonterminal",), 1), (7, A("()|*;"), ("literal",), 1), (8, A("()|>;"), ("nonterminal",), 1)]
    report.parallel(C, [job(*c) for c in cfg])
    C.finish("ATNMachine(int, Stream&) is interpreted on rules of unknown tokens up to the stated lengths; an atom is a nonterminal, literal or regular terminal with a letter of its own. "
             "At each return the network is compared with the notation: which sequences of atoms (with the white space before a terminal) it lets through, and in which order of preference alternatives stand.",
             min_obl=6, assumptions=["white space between tokens is skipped (P30)", "atoms are read by ATNNode (P04, P31)"])


report.main(main)
