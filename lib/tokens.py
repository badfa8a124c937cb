"""Strings, numbers and classes built from the text, on top of reading.py."""
import re
from ir import AnalysisBroken
from engine import AV, Ptr, Violation, Unsupported
from reading import *


class Text(AV):
    """a copy of the text from position a up to b (None: empty)"""
    __slots__ = ("a", "b")
    def __init__(self, a=None, b=None): self.a = a; self.b = b
    def canon(self, ren): return ("text", place(ren, self.a), place(ren, self.b)) if self.a is not None else ("text",)
    def __eq__(self, o): return isinstance(o, Text) and (o.a, o.b) == (self.a, self.b)
    def __hash__(self): return hash((self.a, self.b, 3))
    def __repr__(self): return "text[%s, %s)" % (self.a, self.b)


class Dec(AV):
    """the decimal number written at [a, b), times sc"""
    __slots__ = ("a", "b", "sc")
    def __init__(self, a, b, sc=1): self.a = a; self.b = b; self.sc = sc
    def canon(self, ren): return ("dec", place(ren, self.a), place(ren, self.b), self.sc)
    def __eq__(self, o): return isinstance(o, Dec) and (o.a, o.b, o.sc) == (self.a, self.b, self.sc)
    def __hash__(self): return hash((self.a, self.b, self.sc, 5))
    def __repr__(self): return "number[%s, %s)*%d" % (self.a, self.b, self.sc)


class TokenDomain(TextDomain):
    def move(self, eng, st, v, ins):
        """remembers that the last thing consumed was a CR LF pair"""
        old = st.mon["cur"]
        TextDomain.move(self, eng, st, v, ins)
        for q in range(old, st.mon["cur"]):
            a, b = st.mon["text"].get(q - 1), st.mon["text"].get(q)
            st.mon["crlf"] = q + 1 if a is not None and a.const() == 13 and b is not None and b.const() == 10 else None

    def key(self, st, ren):
        return (TextDomain.key(self, st, ren), st.mon.get("crlf") == st.mon["cur"])

    def binop(self, eng, st, op, a, b, bits, ins):
        x, y = (a, b) if isinstance(b, int) else (b, a)
        if op in ("mul", "shl") and isinstance(y, int):
            f = y if op == "mul" else (1 << y if b is y else None)
            if f == 10 and isinstance(x, Tok) and x.k == -48: return Dec(x.p, x.p + 1, 10)
            if f == 10 and isinstance(x, Dec) and x.sc == 1: return Dec(x.a, x.b, 10)
        if op in ("add", "sub"):
            if isinstance(a, Tok) and isinstance(b, Dec): a, b = b, a
            if isinstance(a, Dec) and isinstance(b, Tok) and op == "add":
                if a.sc == 10 and b.p == a.b: return Part(a.a, a.b, b.k + 48).done()
            if isinstance(a, Part) or isinstance(b, Part):
                if isinstance(b, Part): a, b = b, a
                if isinstance(b, int): return Part(a.a, a.b, a.k + signed(b, bits) * (1 if op == "add" else -1)).done()
        return TextDomain.binop(self, eng, st, op, a, b, bits, ins)


class Part(AV):
    """number[a, b+1) plus k"""
    __slots__ = ("a", "b", "k")
    def __init__(self, a, b, k): self.a = a; self.b = b; self.k = k
    def done(self): return Dec(self.a, self.b + 1) if self.k == 0 else self
    def canon(self, ren): return ("part", place(ren, self.a), place(ren, self.b), self.k)
    def __eq__(self, o): return isinstance(o, Part) and (o.a, o.b, o.k) == (self.a, self.b, self.k)
    def __hash__(self): return hash((self.a, self.b, self.k, 6))


def num_value(v):
    """a number that is the text: Tok -48 -> Dec"""
    if isinstance(v, Tok) and v.k == -48 and v.w == 32: return Dec(v.p, v.p + 1)
    return v


def mine(E, st, p): return isinstance(p, Ptr) and p.obj in st.mem and p.obj != st.mon.get("stream")


def get_str(st, p):
    if isinstance(p, Ptr) and p.obj in st.mem:
        c = st.mem[p.obj].cells.get(p.off)
        if c and isinstance(c[1], Text): return c[1]
    return None


def set_str(st, p, v):
    o = st.wobj(p.obj)
    for k in [k for k in o.cells if p.off <= k < p.off + 32]: del o.cells[k]
    o.cells[p.off] = (32, v)


def s_ctor0(E, st, f, a, ins):
    if not mine(E, st, a[0]): return NotImplemented
    set_str(st, a[0], Text()); return ("val", None)


def s_copy(E, st, f, a, ins):
    if not mine(E, st, a[0]): return NotImplemented
    v = get_str(st, a[1])
    set_str(st, a[0], v if v is not None else OPQ)
    if "&&)" in f.dem and v is not None and mine(E, st, a[1]): set_str(st, a[1], OPQ)
    return ("val", a[0] if "operator=" in f.dem else None)


def deiter(st, v):
    if isinstance(v, (It, End)): return v
    if isinstance(v, Ptr) and v.obj in st.mem:
        c = st.mem[v.obj].cells.get(v.off)
        if c: return c[1]
    return v


def s_range(E, st, f, a, ins):
    x, y = deiter(st, a[1]), deiter(st, a[2])
    if mine(E, st, a[0]) and isinstance(x, It) and isinstance(y, It):
        set_str(st, a[0], Text(x.p, y.p) if x.p != y.p else Text())
        return ("val", a[0] if "assign" in f.dem else None)
    return NotImplemented


def s_push(E, st, f, a, ins):
    if not mine(E, st, a[0]): return NotImplemented
    t = get_str(st, a[0]); c = a[1]
    ret = ("val", a[0] if "+=" in f.dem else None)
    if t is None: set_str(st, a[0], OPQ); return ret
    if isinstance(c, Tok) and c.k == 0:
        if t.a is None: set_str(st, a[0], Text(c.p, c.p + 1))
        elif t.b == c.p: set_str(st, a[0], Text(t.a, c.p + 1))
        else: raise Violation("the character appended is not the one after those appended before", st, E.loc(ins), "not-verbatim")
        return ret
    if isinstance(c, int):
        # a line break written as two characters, or a character already known: it must be the last one delivered
        cur = st.mon["cur"]; k = st.mon["text"].get(cur - 1)
        p = cur - 2 if c == 10 and st.mon.get("crlf") == cur else cur - 1 if k is not None and (k.const() == c or k.const() == 13 and c == 10) else None
        if p is not None:
            if t.a is not None and t.b != p: raise Violation("the character appended is not the one after those appended before", st, E.loc(ins), "not-verbatim")
            set_str(st, a[0], Text(t.a if t.a is not None else p, cur)); return ret
    raise Violation("something other than a character of the text is appended (%r)" % (c,), st, E.loc(ins), "not-verbatim")


def s_clear(E, st, f, a, ins):
    if not mine(E, st, a[0]): return NotImplemented
    set_str(st, a[0], Text()); return ("val", None)


def s_dtor(E, st, f, a, ins):
    return ("val", None) if mine(E, st, a[0]) else NotImplemented


S = r"^std::__cxx11::basic_string<(?:wchar_t|char|unsigned char)\b.*>::"
STRINGS = [(S + r"basic_string\(\)$", s_ctor0), (S + r"basic_string\(std::__cxx11::basic_string<[^()]*> ?(const&|&&)\)$", s_copy),
           (S + r"operator=\(std::__cxx11::basic_string<[^()]*> ?(const&|&&)\)$", s_copy),
           (S + r"basic_string<__gnu_cxx::__normal_iterator<wchar_t (const)?\*.*>(, void)?>\(", s_range), (S + r"assign<__gnu_cxx::__normal_iterator<wchar_t", s_range),
           (S + r"push_back\(", s_push), (S + r"operator\+=\((wchar_t|char|unsigned char)\)$", s_push), (S + r"clear\(\)$", s_clear), (S + r"~basic_string\(\)$", s_dtor)]


class TokenEngine(TextEngine):
    def opaque(self, st, fr, ins, f, args, basen):
        """like TextEngine.opaque, but what lies before the pointer passed keeps its value"""
        keep = {}
        for a in args:
            if isinstance(a, Ptr) and a.obj in st.mem and isinstance(a.off, int) and a.off > 0:
                lo = min([a.off] + ([keep[a.obj][0]] if a.obj in keep else []))
                keep[a.obj] = (lo, {o: c for o, c in st.mem[a.obj].cells.items() if o < lo})
        r = TextEngine.opaque(self, st, fr, ins, f, args, basen)
        for o, (lo, cells) in keep.items():
            if o in st.mem:
                w = st.wobj(o)
                for k, c in cells.items(): w.cells.setdefault(k, c)
        return r


def skip_step(q, c):
    """white space and comments between tokens: q -> q', or None when c belongs to a token (only from 'out').
    'slash?' : a slash seen"""
    k = c.const()
    if q == "out":
        if space(c): return q
        if k == 47: return "slash"
        return None
    if q == "slash": return {42: "block", 47: "line"}.get(k, "bad")
    if q == "line": return "out" if k == 10 else q if not may(c, "\n") else "bad"
    if q == "block": return "star" if k == 42 else q if not may(c, "*") else "bad"
    if q == "star":
        if k == 47: return "out"
        if k == 42: return q
        return "bad" if may(c, "/") or may(c, "*") else "block"
    return q


class Reader:
    """runs the roots of tu/tokens.cpp"""
    def __init__(self, mod, handlers=(), extra=None, **kw):
        self.mod = mod
        self.rd, _, _ = readers(mod)
        self.dom = TokenDomain(); self.dom.keep = 2; self.dom.exact = False; self.dom.maxphi = 4
        self.E = TokenEngine(mod, self.dom, self.rd, set(), list(handlers) + STRINGS, **kw)
        def wanted(E, st, f, args):
            d = f.dem
            return d.startswith(("Centaurus::Stream::unexpected", "verif::")) and not d.startswith("verif::seen") or d.startswith("Centaurus::Identifier::") or (extra and extra(E, st, f, args))
        self.E.interp_extra = wanted
        self.state0 = stream_state(mod, self.E, self.dom)
        self.so = self.state0.mon["stream"]
        for o, (sz, v) in list(self.state0.mem[self.so].cells.items()):
            if isinstance(v, int): self.state0.wobj(self.so).cells[o] = (sz, OPQ)

    def run(self, f, first=None, mon=None):
        s = self.state0.fork(); s.mon["last"] = None; s.trace = None; s.mon["near"] = (0,) if first is not None else ()
        if first is not None: s.mon["text"] = {0: first}
        self.dom.monitors = [mon] if mon else []
        self.E.curkey = None
        self.E.start(s, f, [Ptr(self.so, 0)])
        return [x for x in self.E.run([s], seen=set()) if x[0] in ("ret", "throw")]
