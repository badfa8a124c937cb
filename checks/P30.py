"""P30: the text cursor delivers every character once, skips only white space and comments, and knows its line."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import ir, report
from ir import AnalysisBroken
from reading import *

BREAKS = (0x0A, 0x85, 0x2028, 0x2029)


class Skip(Monitor):
    """reference automaton of what may lie between tokens: white space, /* ... */, // ... line feed"""
    name = "skip"
    init = "out"
    sink = "bad"

    def __init__(self): self.why = {}

    def step(self, q, c):
        k = c.const()
        if q == "out":
            if space(c): return q
            return "slash" if k == 47 else "bad:a character that is neither white space nor part of a comment"
        if q == "slash":
            return {42: "block", 47: "line"}.get(k, "bad:a slash that begins no comment")
        if q == "line":
            if k == 10: return "out"
            return q if not may(c, "\n") else "bad:the end of a // comment"
        if q == "block":
            if k == 42: return "star"
            return q if not may(c, "*") else "bad:a character of a comment that may be its end"
        if q == "star":
            if k == 47: return "out"
            if k == 42: return q
            if may(c, "/") or may(c, "*"): return "bad:a character of a comment that may be its end"
            return "block"
        return q

    def consume(self, dom, st, p):
        q, pend = st.mon.get(self.name) or (self.init, None)
        if pend is not None:
            st.trace = (st.trace, "MON %s %s" % (q, st.mon["text"].get(pend.p, ANY)))
            q = self.step(q, st.mon["text"].get(pend.p, ANY))
        if q.startswith("bad"): raise Violation("white space is skipped over " + q[4:], st, "", "skips-too-much")
        st.mon[self.name] = (q, Tok(p))


def h_int(E, st, f, a, ins):
    st.mon["printed"] = st.mon.get("printed", ()) + (a[1],)
    return ("val", a[0])


class Text(AV):
    """a copy of the text between two positions"""
    __slots__ = ("a", "b")
    def __init__(self, a, b): self.a = a; self.b = b
    def canon(self, ren): return ("text", rel(ren, self.a), rel(ren, self.b))
    def __eq__(self, o): return isinstance(o, Text) and (o.a, o.b) == (self.a, self.b)
    def __hash__(self): return hash((self.a, self.b, 3))


def deiter(st, v):
    if isinstance(v, (It, End)): return v
    if isinstance(v, Ptr) and v.obj in st.mem:
        c = st.mem[v.obj].cells.get(v.off)
        if c: return c[1]
    return v


def h_range(E, st, f, a, ins):
    x, y = deiter(st, a[1]), deiter(st, a[2])
    if isinstance(a[0], Ptr) and isinstance(x, It) and isinstance(y, It):
        st.wobj(a[0].obj).cells[a[0].off] = (32, Text(x.p, y.p))
        return ("val", None)
    return NotImplemented


HANDLERS = [(r"^std::(basic_)?ostream.*::operator<<\((int|long|unsigned int|unsigned long)\)$", h_int),
            (r"^std::__cxx11::basic_string<wchar_t.*>::basic_string<__gnu_cxx::__normal_iterator<wchar_t (const)?\*.*>(, void)?>\(", h_range)]


class Cursor:
    def __init__(self, mod, C):
        self.mod = mod; self.C = C
        self.rd, _, _ = readers(mod)
        self.dom = TextDomain(); self.dom.keep = None; self.dom.exact = True; self.dom.maxphi = 16
        self.E = TextEngine(mod, self.dom, self.rd, set(), HANDLERS, max_states=200000)
        self.E.interp_extra = lambda E, st, f, args: f.dem.startswith("Centaurus::Stream::") and "~" not in f.dem
        st = stream_state(mod, self.E, self.dom)
        self.so = st.mon["stream"]
        self.state0 = st
        self.nexit = 0

    def fn(self, name):
        return self.mod.one(r"^verif::%s(\[abi:cxx11\])?\(" % name)

    def general(self):
        """any state between two calls: numbers arbitrary, flags both ways, one past and any next characters"""
        outs = [self.state0.fork()]
        for off, (sz, v) in sorted(self.state0.mem[self.so].cells.items()):
            if isinstance(v, (It, End, Ptr)): continue
            if sz == 1 and isinstance(v, int):
                nx = []
                for s in outs:
                    for b in (0, 1):
                        t = s.fork(); t.wobj(self.so).cells[off] = (1, b); nx.append(t)
                outs = nx
            else:
                for s in outs: s.wobj(self.so).cells[off] = (sz, Cnt(("at", off)) if isinstance(v, int) and sz == 4 else v)
        return outs

    def call(self, st, name, *args):
        """-> [(kind, state, value)]"""
        f = self.fn(name)
        s = st.fork(); s.mon["last"] = None; s.trace = None
        if self.dom.keep is None: s.mon["near"] = tuple(range(24))
        regs = list(args)
        if f.args and f.args[0].get("sret"):
            r = s.new(64, "result"); regs = [Ptr(r, 0), Ptr(self.so, 0)] + regs
        else: regs = [Ptr(self.so, 0)] + regs; r = None
        self.E.curkey = None
        self.E.start(s, f, regs)
        out = [x for x in self.E.run([s], seen=set()) if x[0] in ("ret", "throw")]
        self.nexit += len(out)
        return [(k, t, (t.mem[r].cells if r is not None and r in t.mem else v)) for k, t, v in out]

    def sig(self, st, v):
        cells = tuple(sorted((o, s, repr(x)) for o, (s, x) in st.mem[self.so].cells.items()))
        txt = tuple(sorted((p, repr(c)) for p, c in st.mon["text"].items() if c != ANY))
        return (st.mon["cur"], cells, txt, repr(v) if isinstance(v, (AV, int)) else None)


def check_get(K):
    C = K.C
    for st in K.general():
        ends = 0
        for kind, s, v in K.call(st, "get"):
            t, n = s.mon["text"], s.mon["cur"]
            where = "Stream::get"
            c = t.get(0)
            if kind != "ret": C.violation("get:throws", "get() throws", where, s.trace_list()); continue
            if c is not None and c.end:
                ends += 1
                if n or v != 0: C.violation("get:end", "at the end of the text get() moves or returns %r" % (v,), where, s.trace_list())
                continue
            if n == 0: C.violation("get:stays", "get() does not move although a character is there", where, s.trace_list()); continue
            k = c.const() if c else None; nx = t.get(1)
            crlf = k == 13 and nx is not None and nx.const() == 10
            if n > 2 or n == 2 and not crlf: C.violation("get:too-far", "get() takes %d characters" % n, where, s.trace_list()); continue
            if n == 1 and k == 13 and nx is not None and nx.const() == 10:
                C.violation("get:crlf", "the two characters of a CR LF line break are delivered separately", where, s.trace_list()); continue
            ok = v == Tok(0) or isinstance(v, int) and v == k
            if crlf: ok = v == 10
            elif k == 13: ok = ok or v == 10
            if not ok: C.violation("get:value" + (":crlf" if crlf else ""), "get() returns %r for the text %s" % (v, "CR LF" if crlf else c), where, s.trace_list())
        if not ends: C.violation("get:end", "get() does not notice the end of the text", "Stream::get")
    C.obligation("get() returns the next character and moves past it; CR LF is one line feed; 0 and no move only at the end")


def check_peek(K):
    C = K.C
    for st in K.general():
        before = K.sig(st, 0)[1]
        for n in (None, 1, 2, 3, 4):
            for kind, s, v in (K.call(st, "peek") if n is None else K.call(st, "peekn", n)):
                m = (n or 1) - 1
                k = K.dom.know(s, m)
                nm = "peek()" if n is None else "peek(%d)" % n
                if kind != "ret" or s.mon["cur"] != 0 or K.sig(s, 0)[1] != before:
                    C.violation("peek:moves", "%s changes the stream" % nm, "Stream::peek", s.trace_list()); continue
                if k is None: C.violation("peek:blind", "%s does not look whether the text reaches that far" % nm, "Stream::peek", s.trace_list())
                elif k.end:
                    if v != 0: C.violation("peek:end", "%s returns %r beyond the end of the text" % (nm, v), "Stream::peek", s.trace_list())
                elif not (v == Tok(m) or isinstance(v, int) and v == k.const()):
                    C.violation("peek:value", "%s returns %r" % (nm, v), "Stream::peek", s.trace_list())
    C.obligation("peek() and peek(n) return the next and the n-th character, or 0 beyond the end, and change nothing", cases=5)


def check_compose(K):
    """discard() = get(), discard(n) = n times get(), after_whitespace() = skip_whitespace(); get()"""
    C = K.C
    def seq(st, names):
        cur = [("ret", st, None)]
        for nm in names:
            cur = [x for k, s, v in cur if k == "ret" for x in K.call(s, nm)] + [c for c in cur if c[0] != "ret"]
        return cur
    for st in K.general():
        for name, args, names, val in [("discard", (), ["get"], False)] + [("discardn", (n,), ["get"] * n, False) for n in range(4)]:
            a = {(k,) + K.sig(s, v if val else 0) for k, s, v in K.call(st, name, *args)}
            b = {(k,) + K.sig(s, v if val else 0) for k, s, v in seq(st, names)}
            if a != b:
                d = sorted(a ^ b, key=repr)[0]; [print(x in a, x) for x in a ^ b] if os.environ.get("VERIF_DEBUG") else None
                C.violation("compose:%s" % name, "%s(%s) does not leave the stream as %d get() would (text %s, cursor +%d)" % (name.rstrip("n"), args[0] if args else "", len(names), dict(d[3]), d[1]), "Stream::" + name.rstrip("n"))
    C.obligation("discard() and discard(n) leave the stream as one and n get() do", cases=5)


def check_skip(K):
    C = K.C
    for st0 in K.general():
        for o, (sz, v) in list(st0.mem[K.so].cells.items()):
            if isinstance(v, (int, Cnt)): st0.wobj(K.so).cells[o] = (sz, OPQ)
        for name in ("skip", "after"):
            rets = 0
            st = st0.fork(); mon = Skip(); K.dom.monitors = [mon]; K.dom.exact = False; K.dom.keep = 2
            try:
                outs = K.call(st, name)
            except Violation as v:
                if v.rule != "skips-too-much": raise
                C.violation("skip:%s" % v.msg, v.msg, "Stream::skip_whitespace", v.st.trace_list()); outs = []
            finally:
                K.dom.monitors = []; K.dom.exact = True; K.dom.keep = None
            for kind, s, v in outs:
                cur = s.mon["cur"]
                if name == "after":
                    continue
                q = mon.final(K.dom, s)
                if q.startswith("bad"): C.violation("skip:%s" % q[4:], "white space is skipped over " + q[4:], "Stream::skip_whitespace", s.trace_list()); continue
                end = K.dom.know(s, cur); atend = end is not None and end.end
                if kind == "throw":
                    if not (q in ("block", "star") and atend):
                        C.violation("skip:throws", "skip_whitespace() throws outside an unterminated block comment (%s)" % q, "Stream::skip_whitespace", s.trace_list())
                    continue
                rets += 1
                if q in ("block", "star", "slash"):
                    C.violation("skip:open", "skip_whitespace() returns inside a comment that does not end" if q != "slash" else "skip_whitespace() stops after the first slash", "Stream::skip_whitespace", s.trace_list()); continue
                if q == "line" and not atend:
                    C.violation("skip:line", "skip_whitespace() stops inside a // comment", "Stream::skip_whitespace", s.trace_list()); continue
                if end is None: C.violation("skip:blind", "skip_whitespace() returns without looking at the next character", "Stream::skip_whitespace", s.trace_list()); continue
                if atend:
                    if v != 0: C.violation("skip:value", "at the end skip_whitespace() returns %r" % (v,), "Stream::skip_whitespace", s.trace_list())
                    continue
                if space(end) is not False: C.violation("skip:leaves", "skip_whitespace() leaves white space unskipped", "Stream::skip_whitespace", s.trace_list()); continue
                if may(end, "/"):
                    nx = K.dom.know(s, cur + 1)
                    if nx is None or not nx.end and (may(nx, "/") or may(nx, "*")):
                        C.violation("skip:leaves", "skip_whitespace() stops before something that can be a comment", "Stream::skip_whitespace", s.trace_list()); continue
                if not (v == Tok(cur) or isinstance(v, int) and v == end.const()):
                    C.violation("skip:value", "skip_whitespace() returns %r, not the character at the cursor" % (v,), "Stream::skip_whitespace", s.trace_list())
            if name == "skip" and not rets and outs: C.violation("skip:never", "skip_whitespace() never returns", "Stream::skip_whitespace")
    C.obligation("skip_whitespace() skips exactly white space and whole comments, returns the character at the cursor, throws only in an unterminated /* comment", exits=K.nexit)


def check_line(K):
    """the line in messages: 1 + the line breaks delivered before the last character (or up to it)"""
    C = K.C
    st = K.state0.fork()
    first = K.call(st, "unexpected", 65)
    if not first or not first[0][1].mon.get("printed"): raise AnalysisBroken("unexpected() prints no number")
    line = first[0][1].mon["printed"][0]
    if line != 1: C.violation("line:start", "the first line is number %r" % (line,), "Stream::unexpected")
    # which cell holds it
    probe = st.fork(); offs = [o for o, (sz, v) in probe.mem[K.so].cells.items() if isinstance(v, int) and sz == 4]
    for o in offs: probe.wobj(K.so).cells[o] = (4, Cnt(("at", o)))
    r = K.call(probe, "unexpected", 65)
    got = r[0][1].mon["printed"][0]
    if not isinstance(got, Cnt): raise AnalysisBroken("the line number printed is not a counter of the stream: %r" % (got,))
    cell = got.n[1]; shift = got.k
    seen = set(); todo = []
    s0 = st.fork(); s0.mon["text"] = {}; base = st.mem[K.so].cells[cell][1]
    # ghost: (line breaks delivered before the last character) relative to the counter, last was a break
    def norm(s, ghost, lastbrk):
        o = s.wobj(K.so)
        v = o.cells[cell][1]
        if isinstance(v, Cnt) and v.n == "L": d = v.k - ghost
        elif isinstance(v, int): d = v - ghost
        else: raise AnalysisBroken("line counter becomes %r" % (v,))
        o.cells[cell] = (4, Cnt("L", d))
        for c in offs:
            if c != cell: o.cells[c] = (4, OPQ)
        flags = tuple(sorted((a, x[1]) for a, x in o.cells.items() if x[0] == 1))
        s.mon["cur"] = s.mon["cur"]
        return (d, flags, lastbrk)
    k = norm(s0, 0, False); todo.append((s0, k)); seen.add(k); nst = 0
    while todo:
        s, (d, flags, lb) = todo.pop(); nst += 1
        if nst > 64: C.violation("line:count", "the line number drifts away from the number of line breaks", "Stream::get", s.trace_list()); return
        for kind, t, _ in K.call(s, "unexpected", 65):
            v = t.mon["printed"][-1] if False else t.mon["printed"][0]
            val = v.k if isinstance(v, Cnt) else None
            if val not in ((1, 2) if lb else (1,)):
                C.violation("line:value", "the line reported is %+d off the line of the last character" % ((val or 0) - 1), "Stream::get", s.trace_list())
        base_text = {}
        s2 = s.fork(); s2.mon["text"] = {}; s2.mon["cur"] = 0
        for o, (sz, v) in list(s2.mem[K.so].cells.items()):
            if isinstance(v, It): s2.wobj(K.so).cells[o] = (sz, It(0))
        for kind, t, v in K.call(s2, "get"):
            c = t.mon["text"].get(0)
            if c is None or c.end: continue
            kk = c.const()
            if t.mon["cur"] == 2: brk = True
            elif kk in BREAKS: brk = True
            elif kk == 13:
                nx = t.mon["text"].get(1); brk = None if nx is None or not nx.end else True
                if brk is None: brk = False
                if nx is not None and nx.end: continue      # the last character of all: no later line to report
            else: brk = False
            ghost = 1 if lb else 0
            try: key = norm(t, ghost, brk)
            except AnalysisBroken: raise
            if key not in seen: seen.add(key); todo.append((t, key))
    C.obligation("the line number in messages is 1 + the number of line breaks before the last character delivered", states=nst)


def check_cut(K):
    C = K.C
    for st in K.general():
        cur = [st]
        for n in range(4):
            for s in cur:
                for kind, t, v in K.call(st, "sentry"):
                    pass
            nxt = []
            for s in cur:
                nxt += [t for k, t, v in K.call(s, "get") if t.mon["cur"] > s.mon["cur"]]
            f = K.fn("cut")
            for s in cur:
                s = s.fork(); e = s.new(8, "sentry", {0: (8, It(0))})
                for kind, t, cells in K.call(s, "cut", Ptr(e, 0)):
                    got = [c[1] for c in cells.values() if isinstance(c[1], Text)] if isinstance(cells, dict) else []
                    if kind != "ret" or len(got) != 1: C.violation("cut:value", "cut() returns something other than a piece of the text", "Stream::cut", t.trace_list()); continue
                    if (got[0].a, got[0].b) != (0, s.mon["cur"]): C.violation("cut:span", "cut() returns [%d, %d) when the mark is at 0 and the cursor at %d" % (got[0].a, got[0].b, s.mon["cur"]), "Stream::cut", t.trace_list())
            cur = nxt
        for kind, t, v in K.call(st, "sentry"):
            vv = v if isinstance(v, AV) else [c[1] for c in v.values()][0] if isinstance(v, dict) and v else v
            if vv != It(0): C.violation("cut:mark", "sentry() is not the position of the cursor (%r)" % (vv,), "Stream::sentry")
    C.obligation("cut(mark) returns the text from the mark to the cursor")


def main():
    C = report.Check("P30", "proof", "abstract interpretation of the Stream operations on an unknown text")
    mod = ir.compile_tu(ir.VERIF + "/tu/stream.cpp")
    K = Cursor(mod, C)
    try:
        check_get(K); check_peek(K); check_compose(K); check_skip(K); check_line(K); check_cut(K)
    except Violation as v:
        if v.rule not in ("past-end-read", "past-end-move", "cursor-back"): raise
        C.violation("%s:%s" % (v.rule, v.loc), v.msg, v.loc, v.st.trace_list() if v.st else [])
    C.stats.update(exits=K.nexit, text_reads=K.dom.nread)
    C.finish("Each operation of Stream is interpreted from an arbitrary state (any text, both values of each flag, counters symbolic) and its exits are compared with the contract; "
             "skip_whitespace is compared with a reference automaton over the characters it consumes; the line counter is followed over all sequences of get() to a fixpoint.",
             min_obl=5, assumptions=["the text holds no NUL characters", "white space is what iswspace says; characters of the C locale are as in ASCII"])


report.main(main)
