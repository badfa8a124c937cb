"""P31: names, literals and listener ids of terminals are taken from the grammar as written."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import ir, report
from ir import AnalysisBroken
from tokens import *

TYPES = ["char", "unsigned char", "wchar_t"]


def namechar(c, first):
    """True / False / None"""
    d = dict(c.pr)
    if c.const() == 95: return True
    n = "alpha" if first else "alnum"
    if c.const() is not None and pred(n, c.const()) is not None: return pred(n, c.const())
    if d.get(n) or not first and d.get("alpha"): return True
    if d.get(n) is False and not may(c, "_"): return False
    if first and d.get("alnum") is False and not may(c, "_"): return False
    if d.get("space"): return False
    return None


class Item(Monitor):
    """a name, or a literal between quotes; then optionally {digits}; each part surrounded by white space"""
    name = "item"
    init = ("start", "", None, None, None, None)

    def consume(self, dom, st, p):
        q, pend = st.mon.get(self.name) or (self.init, None)
        if pend is not None: q = self.step_at(st, q, pend.p)
        st.mon[self.name] = (q, Tok(p))

    def final(self, dom, st):
        q, pend = st.mon.get(self.name) or (self.init, None)
        return self.step_at(st, q, pend.p) if pend is not None else q

    def step_at(self, st, q, p):
        """(phase, skip state or quote, start of body, end of body, start of digits, end of digits)"""
        ph, sk, a, b, d, e = q
        c = st.mon["text"].get(p, ANY); k = c.const()
        bad = lambda w: ("bad " + w, "", a, b, d, e)
        if ph.startswith("bad"): return q
        if ph == "start":
            if k in (34, 39): return ("literal", k, None, None, None, None)
            if namechar(c, True): return ("name", "", It(p), It(p + 1), None, None)
            return bad("a name begins with %s" % c)
        if ph == "literal":
            if k == sk: return ("after", "out", a if a is not None else It(p), It(p), None, None)
            if c.lo <= sk <= c.hi and sk not in c.ne: return bad("a character of a literal that may be the closing quote is not looked at")
            return (ph, sk, a if a is not None else It(p), None, None, None)
        if ph == "name":
            n = namechar(c, False)
            if n: return (ph, "", a, It(p + 1), None, None)
            ph = "after"; sk = "out"
        if ph in ("after", "open", "close", "done"):
            n = skip_step(sk, c)
            if n == "bad": return bad("white space or a comment is misread")
            if n is not None: return (ph, n, a, b, d, e)
            if ph == "after" and k == 123: return ("open", "out", a, b, None, None)
            if ph == "open" and 48 <= c.lo and c.hi <= 57: return ("digits", "", a, b, It(p), It(p + 1))
            if ph == "close" and k == 125: return ("done", "out", a, b, d, e)
            return bad("%s is taken %s" % (c, {"after": "after the name or literal", "open": "after {", "close": "before }", "done": "after }"}[ph]))
        if ph == "digits":
            if 48 <= c.lo and c.hi <= 57: return (ph, "", a, b, d, It(p + 1))
            if k == 125: return ("done", "out", a, b, d, e)
            n = skip_step("out", c)
            if n is not None and n != "bad": return ("close", n, a, b, d, e)
            return bad("%s is taken in a number" % c)
        return q


def canon_item(v): return v


class Check:
    def __init__(self, mod, C):
        self.C = C; self.mod = mod; self.seen = 0
        H = [(r"^verif::seen_name\(", self.h_name), (r"^verif::seen_node\(", self.h_node), (r"^Centaurus::NFA<[\w ]+>::(?!NFA\(\)|~)", self.h_nfa)]
        self.R = Reader(mod, H, lambda E, st, f, a: f.dem.startswith("Centaurus::ATNNode<") and "~" not in f.dem or "wide_to_target" in f.dem)

    def h_nfa(self, E, st, f, a, ins): raise Unsupported("regular expression")

    def ghost(self, st):
        m = self.R.dom.monitors[0]
        return m.final(self.R.dom, st)

    def span(self, g): return Text(g[2].p, g[3].p) if g[2] is not None and g[2].p != g[3].p else Text()

    def h_name(self, E, st, f, a, ins):
        self.seen += 1
        g = self.ghost(st); v = get_str(st, a[0])
        self.judge(st, g, "name", "Identifier::parse")
        if g[0] == "name" and v != self.span(g): self.C.violation("name:value", "the name stored is %r, the name written is %r" % (v, self.span(g)), "Identifier::parse", st.trace_list())
        return ("val", None)

    def judge(self, st, g, kind, where):
        C = self.C; cur = st.mon["cur"]
        nx = self.R.dom.know(st, cur)
        if g[0].startswith("bad"): C.violation("%s:%s" % (kind, re.sub(r"'.*?'|\[.*", "", g[0][4:])), g[0][4:], where, st.trace_list()); return False
        if g[0] in ("start", "literal", "open", "digits", "close"):
            C.violation("%s:unfinished" % kind, "reading stops %s" % {"start": "before anything was read", "literal": "before the closing quote", "open": "after {", "digits": "inside a number", "close": "before }"}[g[0]], where, st.trace_list()); return False
        if g[0] == "name":
            if nx is None or not nx.end and namechar(nx, False) is not False:
                C.violation("%s:cut-short" % kind, "reading stops at a character that can belong to the name", where, st.trace_list()); return False
        return True

    def h_node(self, E, st, f, a, ins):
        self.seen += 1; C = self.C
        typ, name, lit, num = a
        g = self.ghost(st); w = "ATNNode::parse"
        if not self.judge(st, g, "item", w): return ("val", None)
        quoted = st.mon["text"].get(0, ANY).const() in (34, 39) if False else self.quoted
        nx = self.R.dom.know(st, st.mon["cur"])
        body = self.span(g)
        if quoted:
            if typ != 2: C.violation("item:type", "a literal is filed as type %r" % (typ,), w, st.trace_list())
            if get_str(st, lit) != body: C.violation("item:literal", "the literal stored is %r, the one written is %r" % (get_str(st, lit), body), w, st.trace_list())
        else:
            if typ != 1: C.violation("item:type", "a rule name is filed as type %r" % (typ,), w, st.trace_list())
            if get_str(st, name) != body: C.violation("item:name", "the name stored is %r, the one written is %r" % (get_str(st, name), body), w, st.trace_list())
        num = num_value(num)
        if g[4] is None:
            if num != -1 and num != 0xffffffff: C.violation("item:id", "without {n} the listener id is %r" % (num,), w, st.trace_list())
            if nx is None or not nx.end and may(nx, "{"): C.violation("item:id-unread", "a {n} that follows is not read", w, st.trace_list())
        elif num != Dec(g[4].p, g[5].p):
            C.violation("item:id", "the listener id is %r, the number written is at [%d, %d)" % (num, g[4].p, g[5].p), w, st.trace_list())
        return ("val", None)

    def root(self, f, first, quoted, what):
        self.quoted = quoted; n0 = self.seen
        mon = Item()
        try:
            outs = self.R.run(f, first, mon)
        except Violation as v:
            if v.rule != "not-verbatim": raise
            self.C.violation("%s:not-verbatim" % what, v.msg, v.loc, v.st.trace_list()); return
        thr = 0
        for kind, s, _ in outs:
            if kind != "throw": continue
            thr += 1
            g = mon.final(self.R.dom, s); cur = s.mon["cur"]; nx = self.R.dom.know(s, cur)
            if g[0] in ("name", "after", "done") and g[1] in ("", "out"):
                self.C.violation("%s:refused" % what, "a complete %s is refused" % ("literal" if quoted else "name"), f.dem, s.trace_list())
            elif g[0] == "literal" and not (nx is not None and nx.end):
                self.C.violation("%s:refused" % what, "a literal is refused although more text follows", f.dem, s.trace_list())
        if what != "other" and self.seen == n0: self.C.violation("%s:never" % what, "%s never succeeds for %s" % (f.dem, what), f.dem)
        if what == "other" and self.seen != n0: self.C.violation("other:accepted", "a terminal beginning with another character is accepted", f.dem)
        self.C.obligation("%s (%s)" % (f.dem, what), exits=len(outs))


def main():
    C = report.Check("P31", "proof", "abstract interpretation of the token readers on an unknown text, values as spans of the text")
    mod = ir.compile_tu(ir.VERIF + "/tu/tokens.cpp")
    al = Ch(False, LO, HI, frozenset((95,)), frozenset((("alpha", True),)))
    jobs = [(r"^verif::name\(", None, False, "name")]
    for t in TYPES:
        f = r"void verif::node<%s>\(" % re.escape(t)
        jobs += [(f, Ch(False, 39, 39), True, "'literal'"), (f, Ch(False, 34, 34), True, '"literal"'), (f, Ch(False, 95, 95), False, "_name"), (f, al, False, "rule name"),
                 (f, Ch(False, LO, HI, frozenset((34, 39, 47, 95)), frozenset((("alpha", False),))), None, "other")]
    def job(pat, first, quoted, what):
        def run(c):
            K = Check(mod, c)
            K.root(mod.one(pat), first, quoted, what)
            c.stats.update(successes=K.seen, states=K.R.E.nstates)
        return run
    report.parallel(C, [job(*j) for j in jobs])
    C.finish("Each reader is interpreted on an unknown text beside a reference automaton of the notation; at every successful exit the string stored must be exactly the span of the text the automaton marks, "
             "the type must fit and the listener id must be the number between the braces (Horner's scheme recognised over text positions), -1 without braces.",
             min_obl=16, assumptions=["the text holds no NUL characters", "listener ids fit an int", "characters of a literal fit the character type of the grammar"])


report.main(main)
