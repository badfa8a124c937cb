"""Order abstraction of character-range lists relative to k arbitrary points.

Fix k arbitrary characters p1 < ... < pk.  Every endpoint is abstracted to its
rank 0..2k relative to them (odd = equal to a point, even = strictly inside a
gap); comparisons between two endpoints of the same gap stay open (both
outcomes are explored).  A list of ranges is canonical (sorted, disjoint,
non-touching, non-empty) iff for every choice of point its flattened endpoint
word never decreases in rank and never repeats an odd rank; a point is a
member iff some range starts at or below it and ends above it.  Lists of every
length are covered because a consumed prefix is summarised by (canonical?,
first rank, last rank, members), which composes.
"""
from engine import *
from engine import AV, Ptr, Alts
from containers import *


class Tok(AV):
    """an endpoint: rank, and identity when the rank is a gap (two endpoints of one gap may differ)"""
    __slots__ = ("t", "i")
    def __init__(self, t, i=None):
        self.t = t; self.i = i if t % 2 == 0 and PRECISE[0] else None
    def canon(self, ren):
        if self.i is None: return (self.t, None)
        m = ren.tmap
        if self.i not in m: m[self.i] = len(m)
        return (self.t, m[self.i])
    def __eq__(self, o): return isinstance(o, Tok) and o.t == self.t and o.i == self.i
    def __hash__(self): return hash(("Tok", self.t, self.i))
    def __repr__(self): return "<%d%s>" % (self.t, "" if self.i is None else "#%d" % self.i)


def fresh_tok(st, r):
    if r % 2: return Tok(r)
    n = st.mon.get("tid", 0) + 1
    st.mon["tid"] = n
    return Tok(r, n)


# coarse pass first (no order facts inside a gap); a check that fails coarsely is repeated precisely
PRECISE = [False]
FULL = frozenset((-1, 0, 1))


def get_fact(st, a, b):
    """possible signs of a-b for two identified endpoints of one gap"""
    if a is None or b is None: return FULL
    if a == b: return frozenset((0,))
    F = st.mon.get("F") or {}
    def d(x, y):
        if x < y: return F.get((x, y), FULL)
        return frozenset(-s for s in F.get((y, x), FULL))
    r = d(a, b)
    if len(r) == 1: return r
    ids = {x for k in F for x in k}
    for c in ids:
        if c in (a, b): continue
        r = r & comp(d(a, c), d(c, b))
    return r


def comp(p, q):
    out = set()
    for x in p:
        for y in q:
            if x == 0: out.add(y)
            elif y == 0 or x == y: out.add(x)
            else: return FULL
    return frozenset(out)


def add_fact(st, a, b, signs):
    if a is None or b is None: return
    F = dict(st.mon.get("F") or {})
    k = (a, b)
    if a > b:
        k = (b, a); signs = frozenset(-s for s in signs)
    n = F.get(k, FULL) & frozenset(signs)
    if not n: raise Infeasible()
    F[k] = n
    st.mon["F"] = FactDict(F)


class FactDict(dict):
    pass


def before(a, b):
    """can an endpoint of rank a be strictly below one of rank b"""
    return a < b or (a == b and a % 2 == 0)


PSIGN = {"eq": lambda s: s == 0, "ne": lambda s: s != 0, "lt": lambda s: s < 0, "le": lambda s: s <= 0, "gt": lambda s: s > 0, "ge": lambda s: s >= 0}


class NeedFull(Exception):
    """a prefix was copied: the summaries must keep their first rank"""


class Summary(namedtuple("Summary", "ok first last mem")):
    """mem: frozenset of ('m',p) point members and ('i',p,q) covered spans"""
    __slots__ = ()

    @staticmethod
    def one(s, e, k):
        mem = frozenset([("m", p) for p in range(1, 2 * k, 2) if s <= p < e] +
                        [("i", p, q) for p in range(1, 2 * k, 2) for q in range(p + 2, 2 * k, 2) if s <= p and q <= e])
        return Summary(before(s, e), s, e, mem)

    def then(self, o):
        return Summary(self.ok and o.ok and before(self.last, o.first), self.first, o.last, self.mem | o.mem)


class RangeLD(ListDomain):
    keep = 1

    def __init__(self, k, soff, eoff, w, size, vptr=None):
        self.lean = True
        self.k = k; self.soff = soff; self.eoff = eoff; self.w = w; self.size = size; self.vptr = vptr

    def is_input(self, v): return False

    def se(self, E, st, oid):
        c = st.mem[oid].cells
        a = c.get(self.soff); b = c.get(self.eoff)
        if a is None or b is None: return None
        return E.dom.tok(a[1]), E.dom.tok(b[1])

    def fold(self, E, st, pre, oid):
        se = self.se(E, st, oid)
        if se is None or None in se: return None
        o = Summary.one(se[0], se[1], self.k)
        r = o if pre is None else pre.then(o)
        return r._replace(first=None) if self.lean else r

    def compose(self, a, b):
        if a is not None and b is not None and (a.first is None or b.first is None): raise NeedFull("")
        return b if a is None else a if b is None else a.then(b)

    def summary(self, E, st, v):
        pre = v.pre
        for e in v.elems:
            n = self.fold(E, st, pre, e)
            if n is None: raise Unsupported("range with unknown endpoint in a result list")
            pre = n
        return pre

    def gen(self, E, st, tail):
        out = [("end",)]
        last = tail[0]; n0 = (st.mon.get("tid", 0) if st is not None else 0) + 1
        for s in range(0, 2 * self.k + 1):
            if last >= 0 and not before(last, s): continue
            for e in range(s, 2 * self.k + 1):
                if not before(s, e) or (E.dom.cls == "one" and (s == e == 0 or last == s == 0)): continue
                if not E.dom.feasible(s) or not E.dom.feasible(e): continue
                ts, te = Tok(s, n0), Tok(e, n0 + 1)
                cells = {self.soff: (self.w, ts), self.eoff: (self.w, te)}
                if self.vptr is not None: cells[0] = (8, self.vptr)
                facts = []
                if s == e and ts.i is not None: facts.append((ts.i, te.i))
                if last == s and ts.i is not None and tail[1] is not None: facts.append((tail[1], ts.i))
                def rf(st2, facts=facts, n0=n0):
                    st2.mon["tid"] = n0 + 1
                    for a, b in facts: add_fact(st2, a, b, (-1,))
                out.append(("elem", tuple(cells.items()), TailTok(e, te.i), "range of rank (%d,%d)" % (s, e), rf))
        return out


class TailTok(tuple, AV):
    """generator state: rank and identity of the last end point"""
    __slots__ = ()
    def __new__(cls, r, i=None): return tuple.__new__(cls, (r, i if r >= 0 and r % 2 == 0 and PRECISE[0] else None))
    def canon(self, ren):
        if self[1] is None: return (self[0], None)
        m = ren.tmap
        if self[1] not in m: m[self[1]] = len(m)
        return (self[0], m[self[1]])


class OrdDomain(Domain):
    """cls gives the rank of the program's small constants relative to the lowest point:
       zero: p1 = 0, one: p1 = 1, mid: p1 > 1.  All points are below hi."""

    def __init__(self, ld, etpat, hi, cls):
        self.ld = ld; self.etpat = etpat; self.hi = hi; self.cls = cls; self.k = ld.k

    def tok(self, v):
        if isinstance(v, Tok): return v.t
        if isinstance(v, int):
            if v < 0: return None
            if v >= self.hi: return 2 * self.k
            if self.cls == "zero":
                return 1 if v == 0 else (2 if self.k == 1 else None)
            if self.cls == "one":
                return 0 if v == 0 else 1 if v == 1 else (2 if self.k == 1 else None)
            if v <= 1: return 0
            return None
        return None

    def feasible(self, r):
        if self.cls == "zero" and r == 0: return False
        return True

    def listdom(self, et):
        return self.ld if self.etpat in et else None

    def elem_bytes(self, et):
        return self.ld.size if self.etpat in et else None

    def signs(self, st, a, b):
        ta, tb = self.tok(a), self.tok(b)
        if ta is None or tb is None: return (-1, 0, 1)
        if ta != tb: return (-1,) if ta < tb else (1,)
        if ta % 2: return (0,)
        r = [-1, 0, 1]
        if self.cls == "one" and ta == 0 and isinstance(a, Tok) and isinstance(b, Tok): return (0,)
        if st is not None and isinstance(a, Tok) and isinstance(b, Tok) and a.i is not None and b.i is not None:
            return sorted(get_fact(st, a.i, b.i))
        if isinstance(b, int):
            if b == 0 or (self.cls == "one" and ta == 0): r = [x for x in r if x >= 0]
            if b >= self.hi: r = [x for x in r if x <= 0]
            if self.cls == "one" and ta == 0: r = [0 if b == 0 else -1]
        if isinstance(a, int):
            if a == 0: r = [x for x in r if x <= 0]
            if a >= self.hi: r = [x for x in r if x >= 0]
            if self.cls == "one" and ta == 0: r = [0 if a == 0 else 1]
        return r

    def icmp(self, E, st, pred, a, b, bits):
        if (isinstance(a, (Tok, int)) and isinstance(b, (Tok, int))) and (isinstance(a, Tok) or isinstance(b, Tok)):
            p = pred if pred in ("eq", "ne") else pred[-2:]
            sg = self.signs(st, a, b)
            out = []
            for t in (False, True):
                mine = frozenset(s for s in sg if PSIGN[p](s) == t)
                if not mine: continue
                rf = None
                if len(mine) < len(sg) and isinstance(a, Tok) and isinstance(b, Tok) and a.i is not None and b.i is not None and a.t == b.t:
                    def rf(s2, mine=mine): add_fact(s2, a.i, b.i, mine)
                out.append((t, rf))
            return out
        return [(True, None), (False, None)]

    def binop(self, E, st, op, a, b, bits, ins):
        if op == "add" and isinstance(b, Tok) and isinstance(a, int): a, b = b, a
        if op in ("add", "sub") and isinstance(a, Tok) and isinstance(b, int):
            d = signed(b, bits) * (1 if op == "add" else -1)
            if d == 0: return a
            t = a.t
            if d == 1:
                if t % 2: return fresh_tok(st, t + 1)
                n = fresh_tok(st, t)
                def up(s2): s2.mon["tid"] = s2.mon.get("tid", 0) + 1; add_fact(s2, a.i, n.i, (-1,)) if a.i is not None else None
                return Alts([(n, up)] + ([(Tok(t + 1), None)] if t < 2 * self.k else []))
            if d == -1:
                if t % 2: return fresh_tok(st, t - 1)
                n = fresh_tok(st, t)
                def dn(s2): s2.mon["tid"] = s2.mon.get("tid", 0) + 1; add_fact(s2, n.i, a.i, (-1,)) if a.i is not None else None
                return Alts([(n, dn)] + ([(Tok(t - 1), None)] if t > 0 else []))
        return TOP

    def cast(self, E, st, op, v, sb, db, ins):
        if isinstance(v, Tok): return v
        return TOP

    def key(self, st, ren):
        return tuple(sorted((k, canon_val(v, ren)) for k, v in st.mon.items() if k not in ("F", "tid")))

    def late_key(self, st, ren):
        F = st.mon.get("F")
        if not F: return None
        m = ren.tmap
        # close over dropped endpoints before forgetting them
        live = sorted(m)
        new = {}
        for x in range(len(live)):
            for y in range(x + 1, len(live)):
                g = get_fact(st, live[x], live[y])
                if g != FULL: new[(live[x], live[y])] = g
        st.mon["F"] = FactDict(new)
        out = []
        for (a, b), g in new.items():
            a2, b2 = m[a], m[b]
            if a2 > b2: a2, b2 = b2, a2; g = frozenset(-s for s in g)
            out.append((a2, b2, tuple(sorted(g))))
        return tuple(sorted(out))

    blind = ()

    def normalise(self, E, st):
        for loc in self.blind:
            v = getvec(st, loc)
            if isinstance(v, Vec) and v.tail is None and (v.elems or v.pre):
                oid = st.new(self.ld.size, "elem", {self.ld.soff: (self.ld.w, TOP), self.ld.eoff: (self.ld.w, TOP)})
                setvec(st, loc, Vec(v.et, pre=None, base=0, elems=(oid,)))


def range_layout(mod, tchar):
    """where Range<tchar>(start, end) keeps its two endpoints: found by interpreting the constructor"""
    f = mod.one(r"^Centaurus::Range<%s>::Range\(%s, %s\)$" % ((re.escape(tchar),) * 3))
    class D(Domain): pass
    E = Engine(mod, D()); install(E)
    st = State()
    s, e = Mark("s"), Mark("e")
    oid = st.new(64, "elem")
    ends = list(E.run([_go(E, st, f, [Ptr(oid, 0), s, e])]))
    if len(ends) != 1 or ends[0][0] != "ret": raise AnalysisBroken("Range constructor does not simply return")
    cells = ends[0][1].mem[oid].cells
    so = [a for a, c in cells.items() if c[1] == s]; eo = [a for a, c in cells.items() if c[1] == e]
    if len(so) != 1 or len(eo) != 1: raise AnalysisBroken("Range does not store its endpoints once each")
    w = cells[so[0]][0]
    vp = cells.get(0)
    size = max(a + c[0] for a, c in cells.items())
    size = (size + 7) // 8 * 8
    return so[0], eo[0], w, size, (vp[1] if vp and isinstance(vp[1], Ptr) else None)


def _go(E, st, f, args):
    E.start(st, f, args)
    return st


class Mark(AV):
    __slots__ = ("n",)
    def __init__(self, n): self.n = n
    def canon(self, ren): return self.n
    def __eq__(self, o): return isinstance(o, Mark) and o.n == self.n
    def __hash__(self): return hash(("Mark", self.n))
    def __repr__(self): return "<%s>" % self.n
