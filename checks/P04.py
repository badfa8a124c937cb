"""P04: the automaton built from a regular expression accepts exactly the language the expression denotes."""
import sys, os, re, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import ir, report
from ir import AnalysisBroken
from autom import *

SPECIAL = {ord(c) for c in "\\[]+*{}?|().-^/"} | {0}
ESC = {ord(c) for c in "[]+*{}?\\|()."}
END = {ord(")"), ord("/"), 0}
ATOMLESS = {ord("*"), ord("+"), ord("?"), ord("|")}      # not specified in the place of an atom
L = lambda *p: frozenset(p)
SHAPES = [   # what a parenthesised group can be: no way back to state 0, any way out of and back to the last state
    lambda g: [[(L((g, "a")), 1)], [(L((g, "b")), 1)]],
    lambda g: [[(L(), 1)], [(L((g, "a")), 2), (L((g, "b")), 1)], [(L((g, "c")), 1), (L((g, "d")), 2)]],
    lambda g: [[(L((g, "a")), 1), (L((g, "b")), 3)], [(L((g, "c")), 2), (L((g, "d")), 1)], [(L(), 3), (L((g, "e")), 1)], [(L((g, "f")), 2), (L(), 1)]],
]


class Refuse(Exception): pass
class Unspec(Exception): pass


def reference(tok, lit, group):
    """tok(i): character at i, 'class', 'group' or 'other'; -> (automaton, characters consumed)"""
    i = 0
    def unit():
        nonlocal i
        c = tok(i); at = i; i += 1
        if c in END or c in ATOMLESS: raise Unspec()
        if c == ord("\\"):
            c = tok(i); at = i; i += 1
            if c not in ESC: raise Refuse()
            r = letter(lit(at))
        elif c == ord("["):
            if tok(i) != "class": raise Violation("a [ is not read as a character class", None, "", "regex:class")
            r = letter(("class", i)); i += 1
        elif c == ord("."): r = letter(("any",))
        elif c == ord("("):
            if tok(i) != "group": raise Violation("a ( is not read as a group", None, "", "regex:group")
            r = graph(group(i)); i += 1
        elif isinstance(c, str) and c != "other": raise Violation("a %s is read where the expression has none" % c, None, "", "regex:class")
        else: r = letter(lit(at))
        q = tok(i)
        if q in (42, 43, 63):
            i += 1
            r = star(r, 1) if q == 43 else star(r, 0) if q == 42 else star(r, 0, 1)
            m = tok(i)
            if m in (63, 42) or m == 43 and q != 63: i += 1
        return r
    items = []
    while True:
        if tok(i) in END: i += 1; break
        alts = [unit()]
        while tok(i) == ord("|"): i += 1; alts.append(unit())
        items.append(alt(*alts) if len(alts) > 1 else alts[0])
    e = Rx(); e.edge(e.s, None, e.t)
    return cat(*(items or [e])), i


class Dom(AutoDomain):
    """the first k characters are of the alphabet, then the expression ends"""
    def __init__(self, k, alphabet): self.k = k; self.al = alphabet
    def fact(self, st, i):
        if i in st.mon["facts"]: return st.mon["facts"][i]
        if i >= self.k: return 0
        return frozenset() if self.al is None else frozenset(SPECIAL - self.al)


def group_of(st, i): return st.mon["facts"].get(("shape", i))


class Run:
    def __init__(self, C, mod, T, k, alphabet):
        self.C = C; self.mod = mod; self.lay = Layout(mod, T); self.T = T; self.k = k
        self.dom = Dom(k, alphabet)
        self.ctor = mod.one(r"^Centaurus::NFA<%s>::NFA\(Centaurus::Stream&\)$" % re.escape(T))
        self.E = AutoEngine(mod, self.dom, self.lay.cc, [(r"^Centaurus::NFA<%s>::NFA\(Centaurus::Stream&\)$" % re.escape(T), self.nested)], max_time=700)
        self.E.maxdepth = 60

    def nested(self, E, st, f, a, ins):
        out = []
        for n, sh in enumerate(SHAPES):
            s = st.fork(); i = s.mon["cur"]
            self.E.dom.learn(s, ("shape", i), n); eat(s, "group")
            self.lay.write(s, a[0], sh(i))
            out.append((s, ("val", None)))
        return ("alts", out)

    def go(self):
        st = State(); st.mon["facts"] = {}; st.mon["cur"] = 0
        so = st.new(64, "stream"); no = st.new(self.lay.s_nfa, "heap")
        self.E.start(st, self.ctor, [Ptr(no, 0), Ptr(so, 0)])
        n = 0; cases = 0
        for kind, s, v in self.E.run([st]):
            if kind == "abort": self.fail("regex:abort", "an assertion of the library fails", s, None); continue
            n += 1
            cases += self.judge(kind, s, no)
        return n, cases

    def text(self, s, conc):
        out = []
        for i in range(s.mon["cur"]):
            f = self.dom.fact(s, i)
            if i in conc and conc[i] != "other": f = conc[i]
            out.append({"class": "...]", "group": "...)"}.get(f, "x") if isinstance(f, str) else chr(f) if isinstance(f, int) and f else "<end>" if f == 0 else "x")
        return "".join(out)

    def judge(self, kind, s, no):
        cur = s.mon["cur"]; F = lambda i: self.dom.fact(s, i)
        top = max(cur, 1 + max([i for i in s.mon["facts"] if isinstance(i, int)] + [0]))
        open_ = [i for i in range(top) if isinstance(F(i), frozenset)]
        choices = {i: ["other"] + sorted(SPECIAL - F(i)) for i in open_}
        big = 1
        for i in open_: big *= len(choices[i])
        if big > 3000: raise AnalysisBroken("too many unresolved characters")
        done = 0
        got = None
        if kind == "ret":
            try: got = self.lay.read(s, Ptr(no, 0))
            except Unsupported: raise
            E, bad = nfa_of(got)
            if bad or len(got) < 2: self.fail("regex:dangling", bad or "it has fewer than two states", s, {}); return 1
            if any(d == 0 for t in got for _, d in t): self.fail("regex:into-start", "a transition leads back into the initial state, so what stands before the expression can be skipped or repeated with it", s, {}); return 1
        for vs in itertools.product(*[choices[i] for i in open_]):
            conc = dict(zip(open_, vs))
            tok = lambda i: conc[i] if i in conc else F(i) if not isinstance(F(i), frozenset) else "other"
            lit = lambda i: ("char", "=%d" % F(i)) if isinstance(F(i), int) else ("char", i)
            try: ref, used = reference(tok, lit, lambda i: SHAPES[s.mon["facts"][("shape", i)]](i))
            except Unspec: continue
            except Refuse:
                if kind == "ret": self.fail("regex:accepted", "an expression with an unknown escape is accepted", s, conc)
                done += 1; continue
            except Violation as v: self.fail(v.rule, v.msg, s, conc); done += 1; continue
            done += 1
            if kind != "ret": self.fail("regex:refused", "a correct expression is refused", s, conc); continue
            if used != cur: self.fail("regex:extent", "%d characters are consumed where the expression has %d" % (cur, used), s, conc); continue
            d = differ(graph(got).auto(), ref.auto())
            if d:
                w, inlib = d
                self.fail("regex:language", "the automaton %s the word \"%s\"" % ("accepts" if inlib else "refuses", " ".join(self.show(x) for x in w)), s, conc)
        return done

    def show(self, x):
        if x[0] == "char": return chr(int(x[1][1:])) if isinstance(x[1], str) else "x%d" % x[1]
        if x[0] == "any": return "<any>"
        if x[0] == "class": return "<class>"
        return "<group%s.%s>" % (x[0], x[1])

    def fail(self, key, msg, s, conc):
        t = self.text(s, conc or {})
        # one finding per kind and shape of the text
        shape = re.sub(r"x+", "x", t)
        self.C.violation("%s" % key, "expression %s: %s" % (t, msg), "%s:%s" % (self.ctor.file, self.ctor.line), s.trace_list())


CONFIGS = [(3, None), (4, set(map(ord, "(|*+?"))), (5, set(map(ord, "(|?"))), (5, set(map(ord, "|*+?"))), (6, set(map(ord, "|")) | {ord(")")}), (4, set(map(ord, "([.\\"))), (4, set(map(ord, "[|.?*")))]


def main():
    C = report.Check("P04", "bounded", "abstract interpretation of the regular expression reader on unknown characters and operand automata with symbolic labels; language equivalence with Thompson's construction")
    mod = ir.compile_tu(ir.VERIF + "/tu/core.cpp")
    def job(T, k, al):
        def j(c):
            r = Run(c, mod, T, k, al)
            n, cases = r.go()
            if cases < 10: raise AnalysisBroken("only %d expressions compared" % cases)
            c.obligation("every expression of up to %d characters over %s builds an automaton with its language (%s)" % (k, "all characters" if al is None else "x and " + " ".join(chr(x) if x else "end" for x in sorted(al)), T),
                         not c.viol, exits=n, compared=cases)
            c.stats.update(exits=n, compared=cases)
        return j
    cfg = list(CONFIGS)
    if C.tier == "thorough": cfg += [(4, None), (6, set(map(ord, "(|?"))), (6, set(map(ord, "|*+?"))), (5, set(map(ord, "[.\\"))), (5, set(map(ord, "(|*+?"))), (7, set(map(ord, "|*")))]
    def letters(c):
        import ccmake
        n = sum(ccmake.single(c, mod, T, "regex:letter") for T in ("char", "wchar_t"))
        c.obligation("a character of the expression stands for itself, the dot for every character", not c.viol, classes=n)
    report.parallel(C, [letters] + [job("char", k, al) for k, al in cfg] + [job("wchar_t", 3, None)])
    C.finish("NFA(Stream&) is interpreted on texts of unknown characters up to the stated lengths (a character stays one unknown letter until the code compares it; groups are replaced by operand automata of three shapes with a letter of its own on every transition). "
             "The automaton in memory at each return is compared, as a language, with the reference automaton of the expression; also its extent in the text, dangling transitions, and that nothing leads back to the initial state.",
             min_obl=6, assumptions=["texts with a quantifier, | or terminator in the place of an atom are not specified", "what a character class denotes is P02, that labels behave as sets is P01, the text cursor is P30"])


report.main(main)
