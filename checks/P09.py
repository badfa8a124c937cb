"""P09: optimising a rule's network changes neither what it lets through nor which alternative is preferred."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import ir, report
from ir import AnalysisBroken
from atn import *


class Run(RuleRun):
    def go(self, C, gid):
        self.C = C; n = done = dropped = 0
        self.opt = self.mod.one(r"^Centaurus::ATNMachine<%s>::drop_passthrough_nodes\(\)$" % re.escape(self.T))
        st, mo = self.start(gid)
        for kind, s, v in self.E.run([st]):
            if kind != "ret": continue
            before = self.net.read(s, Ptr(mo, 0)); n += 1
            G, bad = net_graph(before)
            if bad: continue          # P08
            for k2, s2, v2 in self.E.sync(s, self.opt, [Ptr(mo, 0)]):
                done += 1
                if k2 != "ret": self.fail("optimise:%s" % k2, "optimising ends in %s" % {"abort": "a failed assertion", "throw": "an exception"}.get(k2, k2), s); continue
                after = self.net.read(s2, Ptr(mo, 0)); dropped += len(before) - len(after)
                if not after: self.fail("optimise:empty", "no node is left", s); continue
                H, bad = net_graph(after)
                if bad: self.fail("optimise:dangling", bad, s); continue
                d = differ(H.auto(), G.auto())
                if d: self.fail("optimise:language", "the optimised network %s \"%s\", the network before does not agree" % ("accepts" if d[1] else "refuses", " ".join("-".join(map(str, x)) for x in d[0])), s)
        return n, done, dropped

    def fail(self, key, msg, s):
        self.C.violation(key, "rule %s: %s" % (self.text(s, {}, s.mon["cur"]), msg), "%s:%s" % (self.opt.file, self.opt.line), s.trace_list())


A = lambda t: set(map(ord, t))
CONFIGS = [(6, A("()|>;"), ("nonterminal",), 1), (4, None, ("nonterminal", "literal"), 1), (6, A("|>;"), ("literal",), 1), (6, A("()*;"), ("nonterminal",), 1), (6, A("()+?;"), ("literal",), 1), (5, A("()|*;"), ("nonterminal",), 3)]


def main():
    C = report.Check("P09", "bounded", "abstract interpretation of the network optimiser on every network the rule reader builds from unknown rules; language comparison with priority letters")
    mod = ir.compile_tu(ir.VERIF + "/tu/core.cpp")
    def job(k, al, kinds, gid, T="char"):
        def j(c):
            r = Run(mod, T, k, al, kinds); r.gid = gid
            n, done, dropped = r.go(c, gid)
            if done < 10: raise AnalysisBroken("only %d networks optimised" % done)
            c.obligation("every network of a rule of up to %d tokens over %s keeps its language and its order of preference when optimised (%s)" % (k, "all characters" if al is None else " ".join(chr(x) for x in sorted(al)), T), not c.viol, networks=done, dropped=dropped)
            c.stats.update(networks=done, dropped=dropped)
        return j
    cfg = list(CONFIGS)
    if C.tier == "thorough": cfg += [(5, None, KINDS, 1), (6, A("()|*;"), ("nonterminal",), 3), (7, A("()|>;"), ("nonterminal",), 1), (7, A("()|?;"), ("nonterminal",), 1)]
    report.parallel(C, [job(*c) for c in cfg])
    C.finish("drop_passthrough_nodes() is interpreted on the network in memory at every return of the rule reader (texts of unknown tokens up to the stated lengths). The network after it must let the same sequences of atoms through; "
             "an edge of a node whose edges differ in priority carries its priority as a letter of its own, so the order of preference is compared as well.",
             min_obl=6, assumptions=["the network before is the rule's (P08)"])


report.main(main)
