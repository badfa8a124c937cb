"""Reading a grammar text: abstract interpretation of everything that takes a Stream.

The text is an unknown sequence of characters.  What the code has found out about it is kept per position
(is it the end? which interval, which excluded values, which iswspace/iswalpha answers?), relative to the
cursor.  Everything that is neither the text, its cursor nor a character taken from it is opaque: it may
have any value.  Recursive readers are summarised (entry condition -> possible exits, least fixpoint).
"""
import re
from ir import AnalysisBroken
from engine import Engine, Domain, State, AV, Ptr, Agg, Alts, TOP, UNDEF, Unsupported, Violation, Infeasible, canon_val, signed

LO, HI = 1, 0x10FFFF
RECENT = 1 << 20        # code of "just before the cursor" in a summary


class _Opq(AV):
    __slots__ = ()
    def canon(self, ren): return "opq"
    def __repr__(self): return "?"
    def __eq__(self, o): return isinstance(o, _Opq)
    def __hash__(self): return 7


OPQ = _Opq()


class It(AV):
    """position in the text"""
    __slots__ = ("p",)
    def __init__(self, p): self.p = p
    def canon(self, ren): return place(ren, self.p)
    def __eq__(self, o): return isinstance(o, It) and o.p == self.p
    def __hash__(self): return hash(("It", self.p))
    def __repr__(self): return "at(%s)" % self.p


class End(AV):
    __slots__ = ()
    def canon(self, ren): return "end"
    def __eq__(self, o): return isinstance(o, End)
    def __hash__(self): return 9
    def __repr__(self): return "end"


class Rem(AV):
    """number of characters from position p to the end, plus k, times scale"""
    __slots__ = ("p", "k", "sc")
    def __init__(self, p, k=0, sc=1): self.p = p; self.k = k; self.sc = sc
    def canon(self, ren): return (rel(ren, self.p), self.k, self.sc)
    def __eq__(self, o): return isinstance(o, Rem) and (o.p, o.k, o.sc) == (self.p, self.k, self.sc)
    def __hash__(self): return hash(("Rem", self.p, self.k))
    def __repr__(self): return "remaining(%s)%+d" % (self.p, self.k)


class Tok(AV):
    """the character at position p, plus k"""
    __slots__ = ("p", "k", "w")
    def __init__(self, p, k=0, w=32): self.p = p; self.k = k; self.w = w
    def canon(self, ren): return (rel(ren, self.p), self.k, self.w)
    def __eq__(self, o): return isinstance(o, Tok) and (o.p, o.k, o.w) == (self.p, self.k, self.w)
    def __hash__(self): return hash(("Tok", self.p, self.k, self.w))
    def __repr__(self): return "char(%s)%s%s" % (self.p, "%+d" % self.k if self.k else "", "/%d" % self.w if self.w != 32 else "")


class Cnt(AV):
    """an unknown number plus a constant"""
    __slots__ = ("n", "k")
    def __init__(self, n, k=0): self.n = n; self.k = k
    def canon(self, ren): return (self.n, self.k)
    def __eq__(self, o): return isinstance(o, Cnt) and (o.n, o.k) == (self.n, self.k)
    def __hash__(self): return hash(("Cnt", self.n, self.k))
    def __repr__(self): return "%s%+d" % (self.n, self.k)


class _Wid(AV):
    """a counter that took too many values to keep"""
    __slots__ = ()
    def canon(self, ren): return "wid"
    def __repr__(self): return "counter"
    def __eq__(self, o): return isinstance(o, _Wid)
    def __hash__(self): return 11


WID = _Wid()


class Ch:
    """what is known of one text position: the end, or a character"""
    __slots__ = ("end", "lo", "hi", "ne", "pr")
    def __init__(self, end=False, lo=LO, hi=HI, ne=frozenset(), pr=frozenset()):
        self.end = end; self.lo = lo; self.hi = hi; self.ne = ne; self.pr = pr
    def t(self): return (self.end, self.lo, self.hi, self.ne, self.pr)
    def __eq__(self, o): return isinstance(o, Ch) and o.t() == self.t()
    def __hash__(self): return hash(self.t())
    def const(self): return self.lo if self.lo == self.hi and not self.end else None
    def __repr__(self):
        if self.end: return "END"
        s = repr(chr(self.lo)) if self.lo == self.hi else "[%x-%x]" % (self.lo, self.hi)
        if self.ne: s += " not " + "".join(sorted(map(repr, map(chr, self.ne))))
        for n, v in sorted(self.pr): s += " %s%s" % ("" if v else "!", n)
        return s

    def norm(self):
        lo, hi, ne = self.lo, self.hi, self.ne
        while lo in ne and lo <= hi: lo += 1
        while hi in ne and lo <= hi: hi -= 1
        if lo > hi: return None
        if hi - lo < 64:
            good = [c for c in range(lo, hi + 1) if c not in ne and all(pred(n, c) in (None, v) for n, v in self.pr)]
            if not good: return None
            lo, hi = good[0], good[-1]
            ne = frozenset(c for c in range(lo, hi) if c not in good)
        if lo == hi: return Ch(False, lo, hi, frozenset(), frozenset((n, v) for n, v in self.pr if pred(n, lo) is None))
        return Ch(False, lo, hi, frozenset(c for c in ne if lo < c < hi), self.pr)


ANY = Ch()


def pred(n, c):
    """iswX on a character; None where the locale decides"""
    if c >= 128 or c < 0: return None
    ch = chr(c)
    return {"space": ch in " \t\n\v\f\r", "alpha": ch.isalpha(), "alnum": ch.isalnum(), "digit": ch.isdigit(), "upper": ch.isupper(), "lower": ch.islower(),
            "xdigit": ch in "0123456789abcdefABCDEF", "punct": 32 < c < 127 and not ch.isalnum(), "print": 32 <= c < 127, "cntrl": c < 32 or c == 127, "blank": ch in " \t", "graph": 32 < c < 127}[n]


def place(ren, p):
    """a position, whatever is known of the character there"""
    cur = ren.st.mon.get("cur", 0)
    if p >= cur: return ("n", p - cur)
    if p not in ren.tmap: ren.tmap[p] = len(ren.tmap)
    return ("o", ren.tmap[p])


def rel(ren, p):
    """a position and the character there"""
    cur = ren.st.mon.get("cur", 0)
    if p >= cur: return ("n", p - cur)
    if p not in ren.tmap: ren.tmap[p] = len(ren.tmap)
    ren.tmap[("k", p)] = len(ren.tmap)
    marks = tuple(k for k, v in sorted(ren.st.mon["marks"]) if v == p)
    return ("o", ren.tmap[p], ren.st.mon["text"].get(p), marks)


class TextDomain(Domain):
    """mon: text {pos: Ch}, cur (cursor position), stream (object id), used/opq/sop flags, last (graph node)"""

    def __init__(self):
        self.phis = {}; self.exact = False; self.keep = 2; self.maxphi = 4
        self.monitors = []
        self.nread = 0

    # -- text knowledge ----------------------------------------------------
    def know(self, st, p):
        t = st.mon["text"]
        if p in t: return t[p]
        for q, c in t.items():
            if c.end and q <= p: return Ch(True)
            if not c.end and q > p: return Ch()
        return Ch() if p < st.mon["cur"] else None

    def learn(self, st, p, c):
        t = dict(st.mon["text"]); t[p] = c
        st.mon["text"] = t

    def is_end(self, st, p):
        """-> [(bool, refine)]"""
        st.mon["sop"] = 1
        k = self.know(st, p)
        if k is not None: return [(k.end, None)]
        return [(True, lambda s: self.learn(s, p, Ch(True))), (False, lambda s: self.learn(s, p, Ch()))]

    def restrict(self, st, p, fn):
        """outcomes of narrowing the character at p"""
        k = self.know(st, p)
        if k is None: k = Ch()
        if k.end: raise Unsupported("a character beyond the end of the text is used")
        return fn(k)

    def cmp_const(self, st, t, pr, c, bits):
        """Tok t pr c -> [(bool, refine)]"""
        k = self.know(st, t.p) or Ch()
        if t.w < 32:
            return [(True, None), (False, None)]
        v = signed(c, bits) - t.k
        if pr in ("eq", "ne"):
            outs = []
            if k.lo <= v <= k.hi and v not in k.ne and all(pred(n, v) in (None, b) for n, b in k.pr):
                outs.append((pr == "eq", Ch(False, v, v, frozenset(), k.pr).norm()))
            n = Ch(False, k.lo, k.hi, k.ne | {v}, k.pr).norm()
            if n is not None: outs.append((pr == "ne", n))
        else:
            p = pr[-2:]
            if pr[0] == "u" and v < 0:          # as unsigned: larger than every character
                return [(p in ("lt", "le"), None)]
            if p in ("lt", "ge"): a, b = (k.lo, min(k.hi, v - 1)), (max(k.lo, v), k.hi); first = p == "lt"
            else: a, b = (k.lo, min(k.hi, v)), (max(k.lo, v + 1), k.hi); first = p == "le"
            outs = []
            for (lo, hi), tv in ((a, first), (b, not first)):
                n = Ch(False, lo, hi, k.ne, k.pr).norm() if lo <= hi else None
                if n is not None: outs.append((tv, n))
        if len(outs) == 1: return [(outs[0][0], None)]
        return [(tv, (lambda s, n=n: self.learn(s, t.p, n))) for tv, n in outs]

    def ask(self, st, name, v):
        """iswX(v) -> [(bool, refine)]"""
        if isinstance(v, int):
            r = pred(name, v)
            return [(r, None)] if r is not None else [(True, None), (False, None)]
        if not isinstance(v, Tok) or v.k or v.w < 32:
            return [(True, None), (False, None)]
        k = self.know(st, v.p) or Ch()
        d = dict(k.pr)
        if name in d: return [(d[name], None)]
        outs = []
        for b in (True, False):
            n = Ch(False, k.lo, k.hi, k.ne, k.pr | {(name, b)})
            # alphanumeric includes alphabetic and digits; white space excludes both
            d2 = dict(n.pr)
            if d2.get("alpha") and d2.get("alnum") is False or d2.get("space") and (d2.get("alnum") or d2.get("alpha")): continue
            if n.lo == n.hi:
                if pred(name, n.lo) not in (None, b): continue
            n = n.norm()
            if n is not None: outs.append((b, n))
        if len(outs) == 1: return [(outs[0][0], None)]
        return [(b, (lambda s, n=n: self.learn(s, v.p, n))) for b, n in outs]

    # -- engine hooks --------------------------------------------------------
    def icmp(self, eng, st, pr, a, b, bits):
        if isinstance(b, (Tok, It, Rem)) and not isinstance(a, AV):
            a, b = b, a; pr = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(pr[-2:], pr[-2:]) if pr not in ("eq", "ne") else pr
            pr = pr if pr in ("eq", "ne") else "s" + pr
        if isinstance(a, End) and isinstance(b, It): 
            a, b = b, a
            pr = pr if pr in ("eq", "ne") else pr[0] + {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}[pr[-2:]]
        if isinstance(a, It) and isinstance(b, End):
            p = pr if pr in ("eq", "ne") else pr[-2:]
            outs = self.is_end(st, a.p)
            if a.p > st.mon["cur"] and p in ("lt", "ge") or p in ("eq", "ne", "lt", "ge"):
                return [(e if p in ("eq", "ge") else not e, rf) for e, rf in outs]
            return [(p == "le", None)]
        if isinstance(a, It) and isinstance(b, It):
            p = pr if pr in ("eq", "ne") else pr[-2:]
            x, y = a.p, b.p
            return [({"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[p], None)]
        if isinstance(a, End) and isinstance(b, End):
            return [(pr in ("eq", "uge", "ule", "sge", "sle"), None)]
        if isinstance(a, Tok) and isinstance(b, int):
            return self.cmp_const(st, a, pr, b, bits)
        if isinstance(a, Tok) and isinstance(b, Tok):
            if a == b: return [(pr in ("eq", "uge", "ule", "sge", "sle"), None)]
            for x, y, q in ((a, b, pr), (b, a, pr if pr in ("eq", "ne") else pr[0] + {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}[pr[-2:]])):
                c = (self.know(st, y.p) or Ch()).const()
                if c is not None and x.w == 32 and y.w == 32: return self.cmp_const(st, x, q, c + y.k, 32)
            return [(True, None), (False, None)]
        if isinstance(a, Rem) and isinstance(b, int) and a.sc == 1:
            v = signed(b, bits) - a.k; p = pr if pr in ("eq", "ne") else pr[-2:]
            lim = v + 1 if p in ("le", "gt", "eq", "ne") else v
            if lim > 8: raise Unsupported("comparison of the remaining length with %d" % v)
            res = []
            for n in range(max(lim, 0) + 1):
                # exactly n characters remain (n < lim), or at least lim
                s = st.fork(); ok = True
                try:
                    for i in range(n):
                        k = self.know(s, a.p + i)
                        if k is not None and k.end: ok = False; break
                        if k is None: self.learn(s, a.p + i, Ch())
                    if ok and n < lim:
                        k = self.know(s, a.p + n)
                        if k is not None and not k.end: ok = False
                        elif k is None: self.learn(s, a.p + n, Ch(True))
                except Infeasible: ok = False
                if not ok: continue
                tv = {"eq": n == v, "ne": n != v, "lt": n < v, "le": n <= v, "gt": n > v, "ge": n >= v}[p]
                res.append((tv, (lambda s2, tx=s.mon["text"]: s2.mon.__setitem__("text", tx))))
            st.mon["sop"] = 1
            return res
        if isinstance(a, Cnt) and isinstance(b, Cnt) and a.n == b.n:
            p = pr if pr in ("eq", "ne") else pr[-2:]
            return [({"eq": a.k == b.k, "ne": a.k != b.k, "lt": a.k < b.k, "le": a.k <= b.k, "gt": a.k > b.k, "ge": a.k >= b.k}[p], None)]
        st.mon["opq"] = 1
        if isinstance(a, _Wid) or isinstance(b, _Wid): st.mon["cnt"] = 1
        return [(True, None), (False, None)]

    def icmp_null(self, eng, st, pred, a, b): return None

    def truth(self, eng, st, c):
        st.mon["opq"] = 1
        return [(True, None), (False, None)]

    def switch(self, eng, st, v, cases, bits):
        if isinstance(v, Tok) and v.w == 32:
            k = self.know(st, v.p) or Ch(); res = []; ne = set(k.ne)
            for c in cases:
                x = signed(c, bits) - v.k
                ne.add(x)
                if k.lo <= x <= k.hi and x not in k.ne and all(pred(n, x) in (None, b) for n, b in k.pr):
                    res.append((c, lambda s, x=x: self.learn(s, v.p, Ch(False, x, x, frozenset(), k.pr).norm())))
            n = Ch(False, k.lo, k.hi, frozenset(ne), k.pr).norm()
            if n is not None: res.append((None, lambda s: self.learn(s, v.p, n)))
            return res
        st.mon["opq"] = 1
        return None

    def binop(self, eng, st, op, a, b, bits, ins):
        if isinstance(a, _Wid) and isinstance(b, int) or isinstance(b, _Wid) and isinstance(a, int): return WID
        if op == "add" and isinstance(b, AV) and isinstance(a, int): a, b = b, a
        if isinstance(b, int) and op in ("add", "sub"):
            d = signed(b, bits) * (1 if op == "add" else -1)
            if isinstance(a, Tok): return Tok(a.p, a.k + d, a.w)
            if isinstance(a, Cnt): return Cnt(a.n, a.k + d)
            if isinstance(a, Rem) and d % a.sc == 0: return Rem(a.p, a.k + d // a.sc, a.sc)
        if op == "sub":
            if isinstance(a, End) and isinstance(b, It): return Rem(b.p, 0, 4)
            if isinstance(a, It) and isinstance(b, It): return ((a.p - b.p) * 4) & ((1 << bits) - 1)
            if isinstance(a, Tok) and isinstance(b, Tok) and a == b: return 0
        if op in ("sdiv", "ashr", "lshr", "udiv") and isinstance(a, Rem) and isinstance(b, int) and (b == a.sc if "div" in op else 1 << b == a.sc):
            return Rem(a.p, a.k, 1)
        return OPQ

    def cast(self, eng, st, op, v, sb, db, ins):
        if isinstance(v, Tok):
            if op in ("zext", "sext") and v.w == 32: return v
            if op == "trunc" and db >= 32: return v
            if op == "trunc": return Tok(v.p, v.k, db)
            if op in ("zext", "sext"): return Tok(v.p, v.k, (v.w, op))if not isinstance(v.w, tuple) else OPQ
        if isinstance(v, (Rem, Cnt, _Wid)): return v
        return OPQ

    def gep(self, eng, st, b, off, sym, ins):
        if isinstance(b, It) and not sym and off % 4 == 0: return It(b.p + off // 4)
        if isinstance(b, It) and len(sym) == 1 and isinstance(sym[0][0], Rem) and off == 0 and sym[0][0].p == b.p and sym[0][0].k == 0: return End()
        return OPQ

    def load_unknown(self, eng, st, p, size, ins):
        if isinstance(p, (It, End)):
            st.mon["sop"] = 1
            self.nread += 1
            pos = p.p if isinstance(p, It) else None
            k = self.know(st, pos) if pos is not None else Ch(True)
            if k is None or k.end:
                raise Violation("the text is read at a position that can be beyond its last character", st, eng.loc(ins), "past-end-read")
            return Tok(pos)
        return OPQ

    def load_undef(self, eng, st, p, size, ins): return OPQ
    def store_unknown(self, eng, st, p, v, size, ins): pass
    def extern(self, eng, st, f, args, ins): return ("val", OPQ)
    def indirect(self, eng, st, fr, p, args, ins): return ("val", OPQ)

    def store_value(self, eng, st, p, v, size):
        """counters kept in the stream are of no interest"""
        if not self.exact and isinstance(p, Ptr) and p.obj == st.mon.get("stream") and isinstance(v, int): return OPQ
        return v

    def on_store(self, eng, st, p, v, size, ins):
        if isinstance(p, Ptr) and p.obj == st.mon.get("stream") and isinstance(v, (It, End)):
            self.move(eng, st, v, ins)

    def move(self, eng, st, v, ins):
        """the cursor is set to v"""
        old = st.mon["cur"]
        if isinstance(v, End):
            raise Unsupported("the cursor is set to the end of the text")
        if v.p == old: return
        st.mon["sop"] = 1
        if v.p < old:
            raise Violation("the cursor moves back in the text", st, eng.loc(ins), "cursor-back")
        for q in range(old, v.p):
            k = self.know(st, q)
            if k is None or k.end:
                raise Violation("the cursor can move beyond the end of the text", st, eng.loc(ins), "past-end-move")
            if q not in st.mon["text"]: self.learn(st, q, k)
            for m in self.monitors: m.consume(self, st, q)
        st.mon["cur"] = v.p; st.mon["used"] = 1; st.mon["usedE"] = 1

    def widen(self, eng, st, fr, prev, b):
        for ins in fr.f.blocks[b]:
            if ins["op"] != "phi": break
            v = fr.regs.get(ins["id"])
            if isinstance(v, int) and not isinstance(v, bool):
                s = self.phis.setdefault((fr.f.name, b, ins["id"]), [])
                if v not in s:
                    if len(s) < self.maxphi: s.append(v)
                    else: fr.regs[ins["id"]] = WID if max(s) - min(s) == len(s) - 1 and v in (max(s) + 1, min(s) - 1) else OPQ
            elif isinstance(v, Cnt) and abs(v.k) > 3: fr.regs[ins["id"]] = OPQ

    def on_load(self, eng, st, p, v, size, ins): return v

    def key(self, st, ren):
        cur = st.mon["cur"]
        if self.keep is not None:
            pin = set(st.mon["near"])
            for m in self.monitors:
                v = st.mon.get(m.name)
                if v and v[1] is not None: pin.add(v[1].p)
            if any(q < cur - self.keep and c != ANY and q not in pin for q, c in st.mon["text"].items()):
                st.mon["text"] = {q: (c if q >= cur - self.keep or q in pin else ANY) for q, c in st.mon["text"].items()}
            for m in self.monitors: m.settle(self, st)
        if st.mon["stream"] is not None: ren(st.mon["stream"])
        return (st.mon.get("usedE"), tuple(sorted((q - cur, c.t().__repr__()) for q, c in st.mon["text"].items() if q >= cur)),
                tuple((q, repr(st.mon["text"][q])) for q in st.mon["near"] if q in st.mon["text"]),
                tuple((m.name, canon_val(st.mon.get(m.name), ren)) for m in self.monitors))

    def late_key(self, st, ren):
        cur = st.mon["cur"]; mk = {v for _, v in st.mon["marks"]}; near = st.mon["near"]
        if any(q < cur and ("k", q) not in ren.tmap and q not in mk and q not in near for q in st.mon["text"]):
            st.mon["text"] = {q: c for q, c in st.mon["text"].items() if q >= cur or ("k", q) in ren.tmap or q in mk or q in near}
        return None


def deep(v, fn):
    """apply fn to the text values inside a monitor's state"""
    if isinstance(v, tuple): return tuple(deep(x, fn) for x in v)
    if isinstance(v, (It, Tok, Rem)): return fn(v)
    return v


class Monitor:
    """an automaton over the characters consumed, in order.  A character is judged when the next one is
    consumed (or at the end), by then everything the code found out about it is known."""
    name = "?"
    init = None
    sink = None         # a state that is never left

    def step(self, q, c):
        """state q, knowledge c of the next character -> new state"""
        return q

    def consume(self, dom, st, p):
        q, pend = st.mon.get(self.name) or (self.init, None)
        if pend is not None: q = self.step(q, st.mon["text"].get(pend.p, ANY))
        st.mon[self.name] = (q, None if q == self.sink else Tok(p))

    def definite(self, q, c):
        """the state after q on any character c may turn out to be, or None"""
        return None

    def project(self, q, c):
        """what is remembered of an undecided character that lies far back"""
        return c

    def settle(self, dom, st):
        v = st.mon.get(self.name)
        if not v or v[1] is None: return
        q, pend = v; c = st.mon["text"].get(pend.p, ANY)
        n = self.definite(q, c)
        if n is not None: st.mon[self.name] = (n, None)
        elif pend.p < st.mon["cur"] - dom.keep and c != ANY:
            p = self.project(q, c)
            if p != c: dom.learn(st, pend.p, p)

    def final(self, dom, st):
        q, pend = st.mon.get(self.name) or (self.init, None)
        return self.step(q, st.mon["text"].get(pend.p, ANY)) if pend is not None else q


def may(c, x):
    """the character can be x"""
    return c.lo <= ord(x) <= c.hi and ord(x) not in c.ne and all(pred(n, ord(x)) in (None, v) for n, v in c.pr)


def space(c):
    """True / False / None: the character is white space"""
    d = dict(c.pr)
    k = c.const()
    if k is not None: return pred("space", k) if pred("space", k) is not None else d.get("space")
    if d.get("space") is not None: return d["space"]
    if d.get("alnum") or d.get("alpha"): return False
    return None


class Statement(Monitor):
    """where in a grammar the reader is: between statements, inside one, or unknown (a comment may have begun)"""
    name = "stmt"
    sink = "unknown"
    init = "between"

    def definite(self, q, c):
        k = c.const()
        if q == "between":
            w = space(c)
            if w: return q
            if k in (47, 59): return "unknown"
            if w is False and not may(c, "/") and not may(c, ";"): return "inside"
        if q == "inside":
            if k == 59: return "between"
            if not may(c, ";"): return q
        return None

    def project(self, q, c):
        if q == "inside": return ANY
        return Ch(False, LO, HI, frozenset(x for x in (47, 59) if not may(c, chr(x))), frozenset((("space", False),)) if space(c) is False else frozenset())

    def step(self, q, c):
        if q == "between":
            w = space(c)
            if w: return q
            if w is False and not may(c, "/") and not may(c, ";"): return "inside"
            return "unknown"
        if q == "inside": return "between" if may(c, ";") else q
        return q


class TextEngine(Engine):
    def __init__(self, mod, dom, reading, rec, handlers=(), **kw):
        H = [(r"^std::__cxx11::basic_string<wchar_t.*>::c?begin\(\)( const)?$", h_begin), (r"^std::__cxx11::basic_string<wchar_t.*>::c?end\(\)( const)?$", h_end),
             (r"^std::__cxx11::basic_string<wchar_t.*>::(size|length)\(\) const$", h_size), (r"^std::__cxx11::basic_string<wchar_t.*>::empty\(\) const$", h_empty),
             (r"^std::__cxx11::basic_string<wchar_t.*>::(c_str|data)\(\)( const)?$", h_begin),
             (r"^isw(space|alpha|alnum|digit|upper|lower|xdigit|punct|print|cntrl|blank|graph)$", h_isw), (r"^isw\w+$", h_opq)]
        Engine.__init__(self, mod, dom, list(handlers) + H, **kw)
        self.reading = reading; self.rec = rec
        self.edges = {}; self.nodes = {}; self.nodeloc = []
        self.sums = {}; self.deps = {}; self.work = []; self.curkey = None; self.calledges = {}
        self.thrower = {}
        self.interp_extra = None

    def store(self, st, p, val, size, ins):
        Engine.store(self, st, p, self.dom.store_value(self, st, p, val, size), size, ins)

    # -- graph ---------------------------------------------------------------
    def key(self, st):
        k = Engine.key(self, st)
        n = self.nodes.get(k)
        if n is None:
            n = self.nodes[k] = len(self.nodes)
            fr = st.frames[-1]
            ins = fr.f.blocks[fr.bi][fr.ii]
            self.nodeloc.append(self.frame_loc(st))
        last = st.mon.get("last")
        if last is not None:
            e = self.edges.setdefault((last, n), set())
            e.add((st.mon.get("used", 0), st.mon.get("opq", 0), st.mon.get("sop", 0), st.mon.get("cnt", 0)))
        st.mon["last"] = n; st.mon["used"] = 0; st.mon["opq"] = 0; st.mon["sop"] = 0; st.mon["cnt"] = 0
        return k

    def frame_loc(self, st):
        fr = st.frames[-1]
        blk = fr.f.blocks[fr.bi]
        for ins in blk[fr.ii:] + blk[:fr.ii]:
            if ins.get("line") and (ins.get("file") or "").find("/repo") >= 0 or ins.get("line") and "c++" not in (ins.get("file") or "c++"):
                return (fr.f, "%s:%s" % (ins.get("file"), ins.get("line")))
        return (fr.f, fr.f.dem)

    # -- calls ---------------------------------------------------------------
    def reaches_throw(self, f, depth=0):
        if f.name in self.thrower: return self.thrower[f.name]
        self.thrower[f.name] = False
        r = False
        if f.defined:
            for b in f.blocks:
                for i in b:
                    if i["op"] in ("call", "invoke") and i["callee"][0] == "g":
                        n = i["callee"][1]
                        if n == "__cxa_throw": r = True
                        else:
                            g = self.mod.functions.get(n)
                            if g is not None and g.defined and g.dem.startswith("Centaurus::") and depth < 4 and self.reaches_throw(g, depth + 1): r = True
        self.thrower[f.name] = r
        return r

    def has_text(self, st, a, depth=0):
        if isinstance(a, (Tok, It, End, Rem)): return True
        if isinstance(a, Ptr) and not isinstance(a.obj, tuple) and a.obj in st.mem:
            o = st.mem[a.obj]
            if a.obj == st.mon.get("stream"):
                return a.off in o.cells and isinstance(o.cells[a.off][1], (It, End))
            return isinstance(a.off, int) and any(a.off <= x < a.off + 32 and self.has_text(st, v[1], depth + 1) for x, v in o.cells.items()) if depth < 2 else False
        return False

    def do_call(self, st, fr, ins, f, args, basen):
        h = self.handler(f)
        if h is not None:
            r = h(self, st, f, args, ins)
            if r is not NotImplemented:
                return self.apply_result(st, fr, ins, r, basen)
        if f.name in self.reading:
            if is_stream_ctor(f):
                if isinstance(args[0], Ptr) and st.mon.get("stream") is None:
                    st.mon["stream"] = args[0].obj
                    return Engine.do_call(self, st, fr, ins, f, args, basen)
                return self.opaque(st, fr, ins, f, args, basen)
            sp = [a for a in args if isinstance(a, Ptr) and a.obj == st.mon.get("stream")]
            if not sp or st.mon.get("stream") is None:
                if self.captures(st, args):
                    return Engine.do_call(self, st, fr, ins, f, args, basen)
                return self.opaque(st, fr, ins, f, args, basen)
            if f.name in self.rec:
                return self.summary_call(st, fr, ins, f, args, basen)
            return Engine.do_call(self, st, fr, ins, f, args, basen)
        from engine import BUILTIN, BUILTIN_PREFIX
        if f.name in BUILTIN or f.name.startswith("llvm."):
            if f.name in ("memcpy", "memmove") or f.name.startswith("llvm.mem"):
                if not all(isinstance(a, (Ptr, int)) for a in args[:3]) or isinstance(args[2], AV):
                    return self.opaque(st, fr, ins, f, args, basen)
            if f.name in ("_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "free"): return self.apply_result(st, fr, ins, ("val", None), basen)
            return Engine.do_call(self, st, fr, ins, f, args, basen)
        if f.defined and self.wanted(st, f, args):
            return Engine.do_call(self, st, fr, ins, f, args, basen)
        return self.opaque(st, fr, ins, f, args, basen)

    def captures(self, st, args):
        """closure objects holding the stream"""
        s = st.mon.get("stream")
        for a in args:
            if isinstance(a, Ptr) and a.obj in st.mem and a.obj != s and not isinstance(a.obj, tuple):
                if any(isinstance(v[1], Ptr) and v[1].obj == s for v in st.mem[a.obj].cells.values()): return True
        return False

    def wanted(self, st, f, args):
        if self.interp_extra and self.interp_extra(self, st, f, args): return True
        d = f.dem
        if "Centaurus::" in d.split("(")[0] or "lambda" in d or "anonymous namespace" in d.split("(anonymous")[0] + ("anonymous namespace" if d.startswith("(anonymous") or " (anonymous" in d.split("(", 1)[0] else ""):
            ret = f.ret
            if ret not in ("void", None) and (any(self.has_text(st, a) for a in args) or all(isinstance(a, int) for a in args)): return True
            return self.reaches_throw(f)
        if "__gnu_cxx::" in d and any(self.has_text(st, a) for a in args): return True
        if d.startswith(("std::", "bool std::", "auto std::")) and any(isinstance(a, (It, End)) for a in args): return True
        return False

    def opaque(self, st, fr, ins, f, args, basen):
        ps = params(f.dem)
        n = len(args) - len(ps) if ps is not None else len(args)
        const_this = f.dem.endswith(" const")
        for i, a in enumerate(args):
            if not isinstance(a, Ptr) or isinstance(a.obj, tuple) or a.obj not in st.mem: continue
            if a.obj == st.mon.get("stream"): continue
            if ps is not None and i >= n:
                p = ps[i - n]
                if p.endswith(" const&") or p.endswith(" const*") or not p.endswith(("&", "*")): continue
            elif const_this and i == n - 1: continue
            o = st.wobj(a.obj)
            o.cells.clear()
        if f.noreturn: return ("abort", st, "noreturn")
        return self.apply_result(st, fr, ins, ("val", OPQ), basen)

    # -- summaries -------------------------------------------------------------
    def rebase(self, st, val, m):
        return val

    def summary_call(self, st, fr, ins, f, args, basen):
        dom = self.dom
        cur = st.mon["cur"]; so = st.mon["stream"]
        old = []            # old positions passed in
        for m in dom.monitors: m.settle(dom, st)
        def tr(v):
            if isinstance(v, (It, Tok, Rem)):
                if v.p >= cur: p = v.p - cur
                else:
                    if v.p not in old: old.append(v.p)
                    p = -1 - old.index(v.p)
                if isinstance(v, It): return It(p)
                if isinstance(v, Tok): return Tok(p, v.k, v.w)
                return Rem(p, v.k, v.sc)
            if isinstance(v, (int, End, Cnt)): return v
            if isinstance(v, Ptr) and v.obj == so: return ("stream", v.off)
            return OPQ
        av = tuple(tr(a) for a in args)
        cells = tuple(sorted(((o, s, tr(v)) for o, (s, v) in st.mem[so].cells.items()), key=lambda c: c[0]))
        near = {p - cur for p in st.mon["near"]}
        text0 = tuple(sorted(((q - cur, c) for q, c in st.mon["text"].items() if q >= cur), key=lambda x: x[0]))
        mons = tuple((m.name, deep(st.mon.get(m.name), tr)) for m in dom.monitors)
        text = text0 + tuple((-1 - i, st.mon["text"].get(p, Ch())) for i, p in enumerate(old))
        key = (f.name, av, cells, text, mons)
        if self.curkey is not None:
            e = self.calledges.setdefault((self.curkey, key), set()); e.add((st.mon.get("usedE", 0), self.loc(ins)))
        self.deps.setdefault(key, set()).add(self.curkey)
        if key not in self.sums:
            self.sums[key] = {}
            self.work.append(key)
        outs = []
        for (kind, rv, cells2, text2, mons2, used, exc) in self.sums[key]:
            s = st.fork()
            B = cur if not used else max([cur] + [q for q in st.mon["text"]]) + 1000
            def back(v):
                if isinstance(v, (It, Tok, Rem)):
                    p = B + v.p if v.p >= 0 else B + v.p + RECENT if v.p < -RECENT // 2 else (old[-1 - v.p] if -1 - v.p < len(old) else B - 500 + v.p)
                    if isinstance(v, It): return It(p)
                    if isinstance(v, Tok): return Tok(p, v.k, v.w)
                    return Rem(p, v.k, v.sc)
                return v
            t = {q: c for q, c in s.mon["text"].items() if q < cur}
            for q, c in text2:
                t[B + q if q >= 0 else B + q + RECENT if q < -RECENT // 2 else (old[-1 - q] if -1 - q < len(old) else B - 500 + q)] = c
            s.mon["text"] = t; s.mon["cur"] = B; s.mon["near"] = ()
            o = s.wobj(so); o.cells.clear()
            for a, z, v in cells2: o.cells[a] = (z, back(v))
            for n, v in mons2: s.mon[n] = deep(v, back)
            if used: s.mon["used"] = 1; s.mon["usedE"] = 1; 
            s.mon["sop"] = 1
            for a in args:          # anything passed by pointer may have changed
                if isinstance(a, Ptr) and a.obj != so and not isinstance(a.obj, tuple) and a.obj in s.mem:
                    s.wobj(a.obj).cells.clear()
            outs.append((s, ("val", back(rv)) if kind == "ret" else ("throw", exc)))
        if not outs:
            raise Infeasible()
        return self.apply_result(st, fr, ins, ("alts", outs), basen)

    def run_summary(self, key):
        fname, av, cells, text, mons = key
        f = self.mod.functions[fname]
        st = fresh(); so = st.new(4096, "stream")
        st.mon["stream"] = so
        for a, z, v in cells: st.mem[so].cells[a] = (z, v)
        st.mon["text"] = dict(text)
        for n, v in mons: st.mon[n] = v
        args = [Ptr(so, v[1]) if isinstance(v, tuple) and v and v[0] == "stream" else v for v in av]
        self.curkey = key
        self.start(st, f, args)
        new = False
        nold = sum(1 for q, _ in text if q < 0)
        for kind, s, rv in self.run([st], seen=set()):
            if kind not in ("ret", "throw"): continue
            for m in self.dom.monitors: m.settle(self.dom, s)
            cur = s.mon["cur"]; olds = []; recent = set(); pins = {v[1].p for v in (s.mon.get(m.name) for m in self.dom.monitors) if v and v[1] is not None}
            def tr(v):
                if isinstance(v, (It, Tok, Rem)):
                    if v.p >= cur: p = v.p - cur
                    elif -nold <= v.p < 0: p = v.p
                    elif False: p = v.p - cur - RECENT; recent.add(v.p)
                    else:
                        if v.p not in olds: olds.append(v.p)
                        p = -1 - nold - olds.index(v.p)
                    if isinstance(v, It): return It(p)
                    if isinstance(v, Tok): return Tok(p, v.k, v.w)
                    return Rem(p, v.k, v.sc)
                if isinstance(v, (int, End, Cnt)) or v is None: return v
                return OPQ
            rv2 = tr(rv) if kind == "ret" else None
            mon2 = tuple((m.name, deep(s.mon.get(m.name), tr)) for m in self.dom.monitors)
            c2 = tuple(sorted(((o, z, tr(v)) for o, (z, v) in s.mem[so].cells.items()), key=lambda c: c[0]))
            t2 = tuple(sorted(((q - cur, c) for q, c in s.mon["text"].items() if q >= cur), key=lambda x: x[0]))
            t2 += tuple((-1 - i, s.mon["text"].get(-1 - i, Ch())) for i in range(nold)) + tuple((-1 - nold - i, s.mon["text"].get(p, Ch())) for i, p in enumerate(olds))
            t2 += tuple((p - cur - RECENT, s.mon["text"].get(p, Ch())) for p in sorted(recent))
            if kind == "throw" and self.dom.keep is not None:       # what a thrower saw is not needed
                t2 = (); 
            ex = (kind, rv2, c2, t2, mon2, s.mon.get("usedE", 0), s.exc if kind == "throw" else None)
            if ex not in self.sums[key]:
                self.sums[key][ex] = True
                new = True
        return new

    def explore(self, st, on_exit):
        """run the root state st (repeatedly, until the summaries it uses are stable)"""
        rounds = 0
        while True:
            self.curkey = None
            changed = False
            outs = []
            for r in self.run([st.fork()], seen=set()):
                outs.append(r)
            n0 = sum(len(v) for v in self.sums.values()); k0 = len(self.sums)
            pend = list(self.sums)
            self.work = []
            if self.sums:
                queue = [k for k in pend if not self.done.get(k)] if hasattr(self, "done") else pend
                if not hasattr(self, "done"): self.done = {}
                while queue:
                    k = queue.pop()
                    self.work = []
                    new = self.run_summary(k)
                    self.done[k] = True
                    for w in self.work:
                        if w not in queue: queue.append(w)
                    if new:
                        for d in self.deps.get(k, ()):
                            if d is not None and d not in queue: queue.append(d)
            rounds += 1
            if sum(len(v) for v in self.sums.values()) == n0 and len(self.sums) == k0:
                for r in outs: on_exit(*r)
                return
            if rounds > 60: raise Unsupported("summaries do not stabilise")


def fresh():
    st = State()
    st.mon = {"text": {}, "cur": 0, "stream": None, "used": 0, "usedE": 0, "opq": 0, "sop": 0, "last": None, "marks": (), "near": ()}
    return st


def h_begin(E, st, f, a, ins):
    if isinstance(a[0], Ptr) and a[0].obj == st.mon.get("stream"):
        return ("val", It(st.mon.get("begin", 0)))
    return NotImplemented


def h_end(E, st, f, a, ins):
    if isinstance(a[0], Ptr) and a[0].obj == st.mon.get("stream"): return ("val", End())
    return NotImplemented


def h_size(E, st, f, a, ins):
    if isinstance(a[0], Ptr) and a[0].obj == st.mon.get("stream"): return ("val", OPQ)
    return NotImplemented


def h_empty(E, st, f, a, ins):
    return NotImplemented


def h_isw(E, st, f, a, ins):
    n = f.dem.split("(")[0][3:]
    st.mon["sop"] = st.mon.get("sop", 0)
    outs = E.dom.ask(st, n, a[0])
    res = []
    for b, rf in outs:
        s = st.fork()
        if rf: rf(s)
        res.append((s, ("val", 1 if b else 0)))
    return ("alts", res)


def h_opq(E, st, f, a, ins): return ("val", OPQ)


def is_stream_ctor(f):
    return re.search(r"(^|::)Stream::Stream\(", f.dem) is not None


def params(dem):
    """top-level parameter list of a demangled function name, or None"""
    d = dem[:-6] if dem.endswith(" const") else dem
    d = re.sub(r"\[abi:\w+\]$", "", d)
    if not d.endswith(")"): return None
    depth = 0
    for i in range(len(d) - 1, -1, -1):
        if d[i] == ")": depth += 1
        elif d[i] == "(":
            depth -= 1
            if depth == 0: break
    s = d[i + 1:-1]
    out = []; dep = 0; cur = ""
    for c in s:
        if c in "<([{": dep += 1
        elif c in ">)]}": dep -= 1
        if c == "," and dep == 0: out.append(cur.strip()); cur = ""
        else: cur += c
    if cur.strip(): out.append(cur.strip())
    return out


# ---- which functions read -------------------------------------------------------
def callees(f):
    out = set()
    for b in f.blocks or ():
        for i in b:
            if i["op"] in ("call", "invoke") and i["callee"][0] == "g": out.add(i["callee"][1])
    return out


def readers(mod):
    """(reading functions, recursive ones, call graph): those that can move or look at the cursor of a Stream"""
    cg = {f.name: callees(f) for f in mod.functions.values()}
    base = {f.name for f in mod.functions.values() if f.defined and re.match(r"Centaurus::Stream::(?!~)", f.dem)
            and (is_stream_ctor(f) or any("__normal_iterator<wchar_t" in mod.functions[c].dem or "basic_string<wchar_t" in mod.functions[c].dem for c in cg[f.name] if c in mod.functions))}
    rd = set(base); ch = True
    while ch:
        ch = False
        for n, cs in cg.items():
            if n not in rd and cs & rd: rd.add(n); ch = True
    # recursive: in a cycle of reading functions
    rec = set()
    for n in rd:
        seen = set(); todo = [c for c in cg[n] if c in rd]
        while todo:
            c = todo.pop()
            if c in seen: continue
            seen.add(c); todo += [x for x in cg[c] if x in rd]
        if n in seen: rec.add(n)
    return rd, rec, cg


def summarised(mod, rd):
    """every reader that is given its Stream"""
    return {n for n in rd if not is_stream_ctor(mod.functions[n]) and ("Centaurus::Stream&" in (params(mod.functions[n].dem) or ()) or mod.functions[n].dem.startswith("Centaurus::Stream::"))}


def stream_state(mod, eng, dom):
    """a state holding a Stream whose text is arbitrary, built by its own constructor"""
    ctor = [f for f in mod.functions.values() if f.defined and is_stream_ctor(f)]
    if not ctor: raise AnalysisBroken("no constructor of Stream")
    f = sorted(ctor, key=lambda f: f.dem)[0]
    st = fresh(); so = st.new(4096, "stream"); st.mon["stream"] = so
    eng.curkey = None
    eng.start(st, f, [Ptr(so, 0)] + [OPQ] * (len(f.args) - 1))
    res = [r for r in eng.run([st], seen=set()) if r[0] == "ret"]
    if len(res) != 1: raise AnalysisBroken("the constructor of Stream has %d exits" % len(res))
    s = res[0][1]
    if not any(isinstance(v[1], It) for v in s.mem[so].cells.values()): raise AnalysisBroken("Stream keeps no cursor")
    s.mon["last"] = None
    return s


def sccs(nodes, adj):
    """Tarjan, iterative"""
    idx = {}; low = {}; on = set(); stack = []; out = []; c = 0
    for r in nodes:
        if r in idx: continue
        work = [(r, iter(adj.get(r, ())))]
        idx[r] = low[r] = c; c += 1; stack.append(r); on.add(r)
        while work:
            n, it = work[-1]
            for m in it:
                if m not in idx:
                    idx[m] = low[m] = c; c += 1; stack.append(m); on.add(m)
                    work.append((m, iter(adj.get(m, ())))); break
                elif m in on: low[n] = min(low[n], idx[m])
            else:
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[n])
                if low[n] == idx[n]:
                    comp = []
                    while True:
                        x = stack.pop(); on.discard(x); comp.append(x)
                        if x == n: break
                    out.append(comp)
    return out


def stuck_loops(eng):
    """cycles of the state graph that read no text although they look at it"""
    adj = {}
    for (a, b), ls in eng.edges.items():
        if any(not l[0] for l in ls): adj.setdefault(a, set()).add(b)
    out = []
    for comp in sccs(list(adj), adj):
        cs = set(comp)
        inner = [(a, b, l) for a in comp for b in adj.get(a, ()) if b in cs for l in eng.edges[(a, b)] if not l[0]]
        if not inner: continue
        opq = any(l[1] for _, _, l in inner); sop = any(l[2] for _, _, l in inner)
        cnt = any(l[3] for _, _, l in inner)        # a counter bounds the cycle
        if (sop or not opq) and not cnt:
            out.append(sorted({eng.nodeloc[a] for a in comp}, key=lambda x: x[1]))
    return out


def stuck_calls(eng):
    adj = {}
    for (a, b), ls in eng.calledges.items():
        if any(not u for u, _ in ls): adj.setdefault(a, set()).add(b)
    out = []
    for comp in sccs(list(adj), adj):
        cs = set(comp)
        if any(b in cs for a in comp for b in adj.get(a, ())):
            out.append(sorted({eng.mod.functions[k[0]].dem for k in comp}))
    return out
