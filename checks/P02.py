"""P02: a bracketed character class denotes exactly the characters written in it."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import ir, report
from ir import AnalysisBroken
from tokens import *

TYPES = [("char", 8), ("unsigned char", 8), ("wchar_t", 32)]
ESC = {92: 92, 45: 45, 91: 91, 93: 93, 116: 9, 84: 9, 114: 13, 82: 13, 110: 10, 78: 10}
DASH, CLOSE, BACK, CARET = 45, 93, 92, 94


class Val(AV):
    """the value of one item: character at p, or a constant, or (identity escape) both"""
    __slots__ = ("p", "c")
    def __init__(self, p, c): self.p = p; self.c = c
    def canon(self, ren): return ("val", place(ren, self.p) if self.p is not None else None, self.c)
    def __eq__(self, o): return isinstance(o, Val) and (o.p, o.c) == (self.p, self.c)
    def __hash__(self): return hash((self.p, self.c, 8))
    def __repr__(self): return repr(chr(self.c)) if self.c is not None else "char(%s)" % self.p


class Notation(Monitor):
    name = "cc"
    init = ("first", None, (), (), 0, 0)       # phase, start, expected, actual, caret, inverted

    def __init__(self, bits): self.mask = (1 << bits) - 1; self.bits = bits

    def same(self, st, v, e, d):
        """the value v the program gave is item e plus d"""
        if isinstance(v, int): 
            c = e.c
            if c is None:
                k = st.mon["text"].get(e.p); c = k.const() if k is not None and not k.end else None
            return c is not None and (v - c - d) & self.mask == 0
        if isinstance(v, Tok):
            if e.c is not None:
                k = st.mon["text"].get(v.p); kc = k.const() if k is not None and not k.end else None
                if kc is not None: return (kc + v.k - e.c - d) & self.mask == 0
            return v.p == e.p and v.k == d and (v.w == self.bits or self.bits == 32 and v.w == 32) and (e.c is None or e.p is not None)
        return False

    def match(self, st, exp, act):
        exp = list(exp); act = list(act)
        for a in list(act):
            for e in list(exp):
                if self.same(st, a[0], e[0], 0) and self.same(st, a[1], e[1], 1):
                    exp.remove(e); act.remove(a); break
        return tuple(exp), tuple(act)

    def put(self, st, q, pend):
        ph, start, exp, act, caret, inv = q
        exp, act = self.match(st, exp, act)
        if len(exp) > 2: raise Violation("%s is written but not added to the class" % describe(exp[0]), st, "", "class:missing")
        if len(act) > 2: raise Violation("a range is added that is not written: %r, written %r, at %s" % (act, exp, ph), st, "", "class:extra")
        st.mon[self.name] = ((ph, start, exp, act, caret, inv), pend)

    def consume(self, dom, st, p):
        q, pend = st.mon.get(self.name) or (self.init, None)
        if pend is not None: q = self.step_at(st, q, pend.p)
        self.put(st, q, Tok(p))

    def final(self, dom, st):
        q, pend = st.mon.get(self.name) or (self.init, None)
        if pend is not None: q = self.step_at(st, q, pend.p)
        ph, start, exp, act, caret, inv = q
        exp, act = self.match(st, exp, act)
        return (ph, start, exp, act, caret, inv)

    def step_at(self, st, q, p):
        ph, start, exp, act, caret, inv = q
        c = st.mon["text"].get(p, ANY); k = c.const()
        bad = lambda w: ("bad " + w, None, exp, act, caret, inv)
        if ph.startswith("bad"): return q
        if ph == "end": return bad("something is taken after the closing bracket")
        nx = st.mon["text"].get(p + 1)
        if k == 13 and nx is not None and nx.const() == 10: return (ph + "+lf", start, exp, act, caret, inv)
        lf = ph.endswith("+lf"); ph = ph[:-3] if lf else ph
        if ph == "first":
            if k == CARET: return ("start", None, exp, act, 1, inv)
            if may(c, "^"): return bad("a character that may be ^ is not looked at")
            ph = "start"
        esc = ph.endswith("\\"); ph = ph.rstrip("\\")
        if esc:
            if k in ESC: v = Val(p if ESC[k] == k else None, ESC[k])
            elif any(may(c, chr(x)) for x in ESC): return bad("an escaped character is taken without telling which")
            else: return bad("syntax")
        else:
            if k == BACK: return (ph + "\\", start, exp, act, caret, inv)
            if k == CLOSE:
                if ph == "dash": return bad("syntax")
                return ("end", None, exp + (((start, start),) if ph == "item" else ()), act, caret, inv)
            if k == DASH: return ("dash", start, exp, act, caret, inv) if ph == "item" else bad("syntax")
            if may(c, "]") or may(c, "\\") or may(c, "-"): return bad("a character that may be ], - or a backslash is not looked at")
            v = Val(None, 10) if lf else Val(p, None)
        if ph == "dash": return ("start", None, exp + ((start, v),), act, caret, inv)
        if ph == "item": exp = exp + ((start, start),)
        return ("item", v, exp, act, caret, inv)


def describe(e): return repr(e[0]) if e[0] == e[1] else "%r-%r" % e


class Run:
    def __init__(self, mod, C, t, bits):
        self.C = C; self.t = t; self.seen = 0
        q = re.escape(t); cc = r"Centaurus::CharClass<%s>" % q; r = r"Centaurus::Range<%s>" % q
        H = [(r"^%s::operator\|=\(%s const&\)$" % (cc, r), self.h_add), (r"^%s::operator\|\(%s\) const$" % (cc, r), self.h_plus), (r"^%s::operator~\(\) const$" % cc, self.h_not),
             (r"^%s::operator=\(" % cc, self.h_assign), (r"^%s::(~CharClass|CharClass\(\))" % cc, self.h_noop), (r"^%s::CharClass\(%s (const&|&&)\)$" % (cc, cc), self.h_copy),
             (r"^verif::seen_class\(", self.h_seen),
             (r"^std::vector<%s.*>::(c?begin|c?end|size|empty|vector|~vector|clear)\(" % r, self.h_vec), (r"^void std::(stable_)?sort<", self.h_noop),
             (r"^%s::operator(\||&)" % cc, self.h_bad), (r"^%s::operator\|=" % cc, self.h_bad), (r"^std::vector<%s" % r, self.h_bad)]
        self.R = Reader(mod, H, lambda E, st, f, a: f.dem.startswith(("Centaurus::Range<", "Centaurus::CharClass<%s>::parse(" % t)) and "~" not in f.dem or "wide_to_target" in f.dem, max_states=400000)
        self.R.dom.maxphi = 32
        self.mon = Notation(bits)
        self.f = mod.one(r"void verif::cclass<%s>\(" % q)
        # layout of a range, from its constructor
        g = mod.one(r"^%s::Range\(%s, %s\)$" % (r, q, q))
        s = self.R.state0.fork(); s.mon["last"] = None; o = s.new(64, "range"); self.R.E.curkey = None
        self.R.E.start(s, g, [Ptr(o, 0), 65, 67])
        outs = [x for x in self.R.E.run([s], seen=set())]
        cells = outs[0][1].mem[o].cells if len(outs) == 1 else {}
        self.lo = [a for a, (z, v) in cells.items() if v == 65]; self.hi = [a for a, (z, v) in cells.items() if v == 67]
        if len(self.lo) != 1 or len(self.hi) != 1: raise AnalysisBroken("layout of Range")

    def h_noop(self, E, st, f, a, ins): return ("val", None)
    def h_vec(self, E, st, f, a, ins):
        if re.search(r"::clear\(", f.dem): raise Unsupported("the class is emptied while it is read")
        return ("val", OPQ)
    def h_bad(self, E, st, f, a, ins): raise Unsupported("%s while a class is read" % f.dem.split("(")[0])

    def main(self, st, p):
        m = st.mon.get("ccobj")
        if m is None: st.mon["ccobj"] = m = p
        return m == p

    def bounds(self, st, p):
        c = st.mem[p.obj].cells
        return tuple((c.get(p.off + o) or (0, OPQ))[1] for o in (self.lo[0], self.hi[0]))

    def add(self, st, b, ins):
        q, pend = st.mon.get("cc") or (Notation.init, None)
        ph, start, exp, act, caret, inv = q
        if inv: raise Violation("a range is added after the class was inverted", st, "", "class:late")
        st.mon["cc"] = ((ph, start, exp, act + (b,), caret, inv), pend)
        self.mon.put(st, st.mon["cc"][0], pend)

    def h_add(self, E, st, f, a, ins):
        if not self.main(st, a[0]): raise Unsupported("ranges are added to another class")
        self.add(st, self.bounds(st, a[1]), ins)
        return ("val", a[0])

    def tag(self, st, p, v):
        st.wobj(p.obj).cells[p.off + 8] = (8, v)

    def h_plus(self, E, st, f, a, ins):
        if not self.main(st, a[1]): raise Unsupported("another class")
        self.tag(st, a[0], ("plus", self.bounds(st, a[2]))); return ("val", None)

    def h_not(self, E, st, f, a, ins):
        if not self.main(st, a[1]): raise Unsupported("another class")
        self.tag(st, a[0], ("not",)); return ("val", None)

    def h_copy(self, E, st, f, a, ins):
        c = st.mem[a[1].obj].cells.get(a[1].off + 8) if isinstance(a[1], Ptr) and a[1].obj in st.mem else None
        self.tag(st, a[0], c[1] if c else ("old",) if self.main(st, a[1]) else OPQ); return ("val", None)

    def h_assign(self, E, st, f, a, ins):
        c = st.mem[a[1].obj].cells.get(a[1].off + 8) if isinstance(a[1], Ptr) and a[1].obj in st.mem else None
        v = c[1] if c else None
        if not self.main(st, a[0]): raise Unsupported("another class")
        if v and v[0] == "plus": self.add(st, v[1], ins)
        elif v and v[0] == "not":
            q, pend = st.mon.get("cc") or (Notation.init, None)
            if q[5]: raise Violation("the class is inverted twice", st, "", "class:twice")
            st.mon["cc"] = (q[:5] + (1,), pend)
        else: raise Unsupported("the class is assigned something else")
        return ("val", a[0])

    def h_seen(self, E, st, f, a, ins):
        self.seen += 1; C = self.C; w = "CharClass::parse"
        g = self.mon.final(self.R.dom, st)
        if not self.main(st, a[0]): raise Unsupported("another class")
        ph, start, exp, act, caret, inv = g
        if ph.startswith("bad"):
            if ph == "bad syntax": C.violation("class:accepts", "a class that breaks the notation is accepted", w, st.trace_list())
            else: C.violation("class:%s" % ph[4:], ph[4:], w, st.trace_list())
        elif ph != "end": C.violation("class:unfinished", "reading stops before the closing bracket", w, st.trace_list())
        elif exp: C.violation("class:missing", "%s is written but not added to the class" % describe(exp[0]), w, st.trace_list())
        elif act: C.violation("class:extra", "the range [%r, %r) is added but not written" % act[0], w, st.trace_list())
        elif bool(caret) != bool(inv): C.violation("class:invert", "a class %s ^ is %sinverted" % ("with" if caret else "without", "" if inv else "not "), w, st.trace_list())
        return ("val", None)

    def go(self):
        C = self.C
        try: outs = self.R.run(self.f, None, self.mon)
        except Violation as v:
            if not v.rule.startswith("class:"): raise
            C.violation(v.rule, v.msg, "CharClass::parse", v.st.trace_list()); C.obligation("%s" % self.t); return
        for kind, s, _ in outs:
            if kind != "throw": continue
            g = self.mon.final(self.R.dom, s); cur = s.mon["cur"]; nx = self.R.dom.know(s, cur)
            last = s.mon["text"].get(cur - 1)
            if g[0] == "bad syntax" or nx is not None and nx.end or last is not None and last.const() == 0xFFFF: continue
            if g[0].startswith("bad"): C.violation("class:%s" % g[0][4:], g[0][4:], "CharClass::parse", s.trace_list())
            else: C.violation("class:refused", "a class that follows the notation is refused", "CharClass::parse", s.trace_list())
        if not self.seen: C.violation("class:never", "no class is ever accepted", "CharClass::parse")
        C.obligation("CharClass<%s>: ranges added = items written, in every class" % self.t, exits=len(outs), successes=self.seen)
        C.stats.update(states=self.R.E.nstates, successes=self.seen)


def main():
    C = report.Check("P02", "proof", "abstract interpretation of CharClass::parse beside a reference automaton of the notation")
    mod = ir.compile_tu(ir.VERIF + "/tu/tokens.cpp")
    report.parallel(C, [lambda c, t=t, b=b: Run(mod, c, t, b).go() for t, b in TYPES])
    C.finish("The reader of bracketed classes is interpreted on an unknown text. The automaton of the notation turns the characters consumed into the list of items written; every range the code adds must be "
             "one of them ([c, c+1) or [a, b+1), with the escapes resolved), every item must be added, the class inverted exactly if it starts with ^, and only texts that break the notation refused.",
             min_obl=3, assumptions=["the text holds no NUL characters", "ranges are written low-high and their ends fit the character type", "adding a range and inverting do what P01 shows"])


report.main(main)
