"""Sequences of any length with symbolic positions.

A container is a list of items: explicit elements E and gaps G(count, forms),
where count is a linear expression over non-negative count variables and forms
is the set of shapes the gap's elements can have.  Indices, sizes, iterators
and counters are linear expressions over the same variables, so "position of
the element", "size at entry" or "same length as that other list" stay exact
for lists of every length.  A comparison that the variables do not decide
forks the state and substitutes the case into every value (v := 0, v := v'+1,
g := h + 1 + k ...).  At merge points elements nothing can reach are folded
into gaps, adjacent gaps no live index separates are merged and counts are
renamed (c+v -> 1+v'), which gives a fixpoint for loops of any trip count.
"""
import re
from engine import *
from engine import AV, Model, Ptr, Agg, Obj, TOP, UNDEF, Unsupported, Violation, Infeasible, canon_val, Alts, Domain, signed
import engine
from containers import parse_dem, construct_fn, PRIM, short_et, live_regs, split_top
from ir import AnalysisBroken

M64 = (1 << 64) - 1


class CInt(int):
    """a concrete integer produced by counting: may be generalised at a merge point"""
    __slots__ = ()


def _vk(p):
    return (0, p[0], "") if isinstance(p[0], int) else (1, 0, p[0])


class Lin(AV):
    __slots__ = ("c", "vs", "_h")

    def __init__(self, c, vs):
        self.c = c; self.vs = vs; self._h = hash((c, vs))

    def canon(self, ren):
        n = getattr(ren, "nums", None)
        if n is not None: n.append(self)
        m = ren.tmap; out = []
        for v, k in self.vs:
            if isinstance(v, int):
                if v not in m: m[v] = len(m)
                out.append((m[v], k))
            else: out.append((v, k))
        return (self.c, tuple(sorted(out, key=_vk)))

    def subst(self, fn): return fn(self)
    def __eq__(self, o): return isinstance(o, Lin) and self._h == o._h and self.c == o.c and self.vs == o.vs
    def __hash__(self): return self._h
    def __repr__(self):
        s = "+".join(("" if k == 1 else str(k) + "*") + (("v%d" % v) if isinstance(v, int) else str(v)) for v, k in self.vs)
        return "[%s%s]" % (s, "%+d" % self.c if self.c else "")


def mk(c, d):
    vs = tuple(sorted(((v, k) for v, k in d.items() if k), key=_vk))
    if not vs: return CInt(c)
    return Lin(c, vs)


def tok(name):
    """an unknown integer with a name; names starting with * are forgotten between uses"""
    return Lin(0, ((name, 1),))


def isnum(x): return isinstance(x, (int, Lin)) and not isinstance(x, bool)


def parts(x):
    if isinstance(x, Lin): return x.c, dict(x.vs)
    return (x - (1 << 64) if x >> 63 else x) if x >= 0 else int(x), {}


def ladd(a, b, k=1):
    ca, da = parts(a); cb, db = parts(b)
    for v, q in db.items(): da[v] = da.get(v, 0) + k * q
    return mk(ca + k * cb, da)


def lsub(a, b): return ladd(a, b, -1)


def replace(x, var, by):
    """x with var := by"""
    if not isinstance(x, Lin): return x
    d = dict(x.vs)
    if var not in d: return x
    k = d.pop(var)
    return ladd(mk(x.c, d), by, k)


def nonneg(x):
    if isinstance(x, Lin): return x.c >= 0 and all(isinstance(v, int) and k > 0 for v, k in x.vs)
    return parts(x)[0] >= 0


def definite_pos(x): return nonneg(ladd(x, -1))


class Tok(AV):
    """an opaque value; pin marks values of a tracked element (never forgotten)"""
    __slots__ = ("n", "pin")

    def __init__(self, n, pin=False): self.n = n; self.pin = pin
    def canon(self, ren): return (self.n, self.pin)
    def __eq__(self, o): return isinstance(o, Tok) and o.n == self.n and o.pin == self.pin
    def __hash__(self): return hash((self.n, self.pin))
    def __repr__(self): return "<%s%s>" % ("!" if self.pin else "", self.n)


class SIt(AV):
    __slots__ = ("loc", "pos")

    def __init__(self, loc, pos): self.loc = loc; self.pos = pos

    def canon(self, ren):
        n = getattr(ren, "nums", None)
        if n is not None: n.append(self.pos)
        return (ren(self.loc[0]), self.loc[1], canon_val(self.pos, ren))

    def subst(self, fn):
        h = getattr(fn, "byloc", None)
        return SIt(self.loc, h(self.loc, self.pos) if h else fn(self.pos))
    def __eq__(self, o): return isinstance(o, SIt) and o.loc == self.loc and o.pos == self.pos
    def __hash__(self): return hash((self.loc, self.pos))
    def __repr__(self): return "SIt(%s@%s)" % (self.loc, self.pos)


class BRef(AV):
    """std::vector<bool> reference"""
    __slots__ = ("oid",)
    def __init__(self, oid): self.oid = oid
    def canon(self, ren): return ren(self.oid)
    def __eq__(self, o): return isinstance(o, BRef) and o.oid == self.oid
    def __hash__(self): return hash(("B", self.oid))


class Seq(Model):
    __slots__ = ("et", "items")

    def __init__(self, et, items=()):
        self.et = et; self.items = items

    def canon(self, ren):
        if getattr(ren, "lazy", False):
            return None
        return (self.et, tuple(("E", ren(i[1])) if i[0] == "E" else ("G", canon_val(i[1], ren), i[2]) for i in self.items))

    def subst(self, fn):
        if not getattr(fn, "gaps", True): return self
        out = []
        for i in self.items:
            if i[0] == "G":
                n = fn(i[1])
                if isinstance(n, int) and n <= 0:
                    if n < 0: raise Infeasible()
                    continue
                i = ("G", n, i[2])
            out.append(i)
        return Seq(self.et, tuple(out))

    def total(self):
        t = 0
        for i in self.items: t = ladd(t, 1 if i[0] == "E" else i[1])
        return t

    def clone(self, st, E):
        return Seq(self.et, tuple(("E", clone_obj(st, E, i[1])) if i[0] == "E" else i for i in self.items))

    def forms(self):
        r = frozenset()
        for i in self.items:
            if i[0] == "G": r |= i[2]
        return r

    def __eq__(self, o): return isinstance(o, Seq) and self.et == o.et and self.items == o.items
    def __hash__(self): return hash((self.et, self.items))
    def __repr__(self):
        return "Seq(%s)" % " ".join("E%s" % i[1] if i[0] == "E" else "G%s%s" % (i[1], sorted(map(shortform, i[2]))) for i in self.items)


def shortform(f):
    s = repr(f)
    return s if len(s) < 60 else s[:57] + "..."


def clone_obj(st, E, oid):
    o = st.mem[oid]
    n = st.new(o.size, "elem")
    for a, (s, v) in o.cells.items():
        if isinstance(v, Model): v = v.clone(st, E)
        st.mem[n].cells[a] = (s, v)
    return n


# ---- substitution ---------------------------------------------------------------
def vmap(v, fn):
    if isinstance(v, Lin): return fn(v)
    if isinstance(v, CInt): return fn(v)
    if isinstance(v, (int, str)) or v is None: return v
    if isinstance(v, Ptr): return Ptr(v.obj, vmap(v.off, fn)) if isinstance(v.off, Lin) else v
    if isinstance(v, Agg): return Agg(tuple((o, s, vmap(x, fn)) for o, s, x in v.cells))
    if isinstance(v, tuple): return tuple(vmap(x, fn) for x in v)
    s = getattr(v, "subst", None)
    if s: return s(fn)
    return v


def mapstate(st, fn):
    for fr in st.frames:
        for r, v in fr.regs.items():
            n = vmap(v, fn)
            if n is not v: fr.regs[r] = n
    for oid in list(st.mem):
        o = st.mem[oid]
        ch = None
        for a, (s, v) in o.cells.items():
            n = vmap(v, fn)
            if n is not v and n != v or type(n) is not type(v):
                if ch is None: ch = {}
                ch[a] = (s, n)
        if ch:
            w = st.wobj(oid); w.cells.update(ch)
    for k, v in list(st.mon.items()):
        st.mon[k] = vmap(v, fn)
    if st.scratch is not None: st.scratch = vmap(st.scratch, fn)


def subst(st, var, by):
    def fn(x):
        r = replace(x, var, by)
        return r
    mapstate(st, fn)
    F = st.mon.get("facts")
    if F:
        n = []
        for d, s in F:
            r = replace(d, var, by)
            if isinstance(r, Lin): n.append((r, s))
            else:
                c = parts(r)[0]
                if ((c > 0) - (c < 0)) not in s: raise Infeasible()
        st.mon["facts"] = frozenset(n)


def fresh(st):
    n = st.mon.get("nv", 1000)
    st.mon["nv"] = n + 1
    return n


def var(st):
    return Lin(0, ((fresh(st), 1),))


# ---- deciding signs ------------------------------------------------------------------
def _norm(d):
    """(d', flip) with the first coefficient positive"""
    if d.vs[0][1] < 0:
        return Lin(-d.c, tuple((v, -k) for v, k in d.vs)), True
    return d, False


def signs(E, st, d, depth=0):
    """-> list of (sign, refine)"""
    if not isinstance(d, Lin):
        c = parts(d)[0]
        return [((c > 0) - (c < 0), None)]
    toks = [v for v, k in d.vs if not isinstance(v, int)]
    if toks:
        opts = {-1, 0, 1}
        h = getattr(E.dom, "lin_facts", None)
        if h:
            r = h(E, st, d)
            if r is not None: opts &= r
        if any(t.startswith("*") for t in toks):
            return [(s, None) for s in sorted(opts)]
        n, fl = _norm(d)
        for q, s in st.mon.get("facts", frozenset()):
            if q == n: opts &= {-x for x in s} if fl else set(s)
            else:
                # same variables, other constant
                if q.vs == n.vs:
                    for x in list(opts):
                        y = -x if fl else x
                        if not any(_compat(q.c, z, n.c, y) for z in s): opts.discard(x)
        out = []
        for s in sorted(opts):
            def rf(st, s=s):
                y = -s if fl else s
                if s == 0:
                    for v, k in d.vs:
                        if not isinstance(v, int) and abs(k) == 1:
                            rest = replace(d, v, 0)
                            by = ladd(0, rest, -k)
                            subst(st, v, by); return
                if len(opts) > 1:
                    F = {a: b for a, b in st.mon.get("facts", frozenset())}
                    F[n] = frozenset((y,))
                    st.mon["facts"] = frozenset(F.items())
            out.append((s, rf))
        return out
    pos = [(v, k) for v, k in d.vs if k > 0]; neg = [(v, k) for v, k in d.vs if k < 0]
    if not neg or not pos:
        sg = 1 if pos else -1
        c = d.c * sg; vs = pos or neg
        if c > 0: return [(sg, None)]
        if c == 0:
            out = [(0, lambda st: [subst(st, v, 0) for v, _ in vs])]
            for i, (v, k) in enumerate(vs):
                def rf(st, i=i, v=v):
                    for u, _ in vs[:i]: subst(st, u, 0)
                    subst(st, v, Lin(1, ((v, 1),)))
                out.append((sg, rf))
            return out
        v = vs[0][0]
        out = []
        for by in (0, Lin(1, ((v, 1),))):
            d2 = replace(d, v, by)
            for s, rf in signs(E, st, d2, depth + 1):
                def r2(st, by=by, rf=rf):
                    subst(st, v, by)
                    if rf: rf(st)
                out.append((s, r2))
        return out
    out = []
    # single +1 or -1 pivot against the rest
    def pivot(sg, s):
        """express d*sg = p - N + c with p a variable; case sign s of d*sg"""
        cand = [v for v, k in d.vs if k * sg == 1]
        if not cand: return None
        for p in cand:
            N = ladd(Lin(0, ((p, 1),)), d if sg == 1 else ladd(0, d, -1), -1)     # p - d*sg : N - c
            # d*sg = p - N'
            if s == 0 and nonneg(N):
                return lambda st, p=p, N=N: subst(st, p, N)
            if s == 1 and nonneg(ladd(N, 1)):
                return lambda st, p=p, N=N: subst(st, p, ladd(ladd(N, 1), var(st)))
        return None
    for s in (-1, 0, 1):
        rf = None
        if s == 1: rf = pivot(1, 1)
        elif s == -1: rf = pivot(-1, 1)
        else: rf = pivot(1, 0) or pivot(-1, 0)
        out.append((s, rf))
    return out


def _compat(qc, z, nc, y):
    """exists x: sign(x+qc)==z and sign(x+nc)==y over the integers"""
    for x in range(-max(abs(qc), abs(nc)) - 2, max(abs(qc), abs(nc)) + 3):
        if ((x + qc > 0) - (x + qc < 0)) == z and ((x + nc > 0) - (x + nc < 0)) == y: return True
    return False


def decide(E, st, d, test):
    """-> (True/False, None) when decided, else ('split', states)"""
    o = signs(E, st, d)
    vals = {test(s) for s, _ in o}
    if len(vals) == 1: return vals.pop(), None
    sts = []
    for s, rf in o:
        n = st.fork()
        try:
            if rf: rf(n)
        except Infeasible:
            continue
        sts.append(n)
    return "split", sts


def again(sts): return ("alts", [(s, ("again",)) for s in sts])


# ---- access ---------------------------------------------------------------------------
def getseq(st, loc):
    o = st.mem.get(loc[0])
    if o is None: return None
    c = o.cells.get(loc[1])
    return c[1] if c else None


def setseq(st, loc, v, size=24):
    o = st.wobj(loc[0])
    old = o.cells.get(loc[1])
    o.cells[loc[1]] = (old[0] if old else size, v)


def initseq(E, st, p, v, size=24):
    o = st.wobj(p.obj)
    E.clear_range(o, p.off, size)
    o.cells[p.off] = (size, v)


def seq_at(E, st, p, ins):
    if not isinstance(p, Ptr): raise Unsupported("container at unknown address %r at %s" % (p, E.loc(ins)))
    v = getseq(st, p)
    if not isinstance(v, Seq): raise Unsupported("container used before construction (%r holds %r) at %s" % (p, v, E.loc(ins)))
    return v


def fill(E, st, form):
    """-> list of (state, oid): a fresh object of the given form (st is consumed)"""
    if form[0] == "gen":
        oid = st.new(None, "elem")
        r = E.dom.generate(E, st, oid, form)
        return [(st, oid)] if r is None else r
    oid = st.new(None, "elem")
    fillcells(E, st, oid, form)
    return [(st, oid)]


def fillcells(E, st, oid, form):
    cells = {}
    for a, s, v in form[1]:
        if isinstance(v, tuple) and v and v[0] == "seq":
            items = ()
            if v[2]: 
                n = var(st)
                items = (("G", ladd(n, v[3]), v[2]),)
            v = Seq(v[1], items)
        elif v == ("any",): v = TOP
        cells[a] = (s, v)
    st.mem[oid] = Obj(None, "elem", cells)


def lookup(E, st, loc, pos, ins):
    """-> ('at', oid, state) | ('end',) | ('oob',) | ('split', states)"""
    seq = getseq(st, loc)
    s = 0
    if isinstance(pos, Lin) and any(not isinstance(v, int) for v, _ in pos.vs):
        return lookup_tok(E, st, loc, seq, pos, ins)
    for k, it in enumerate(seq.items):
        d = lsub(pos, s)
        if it[0] == "E":
            if d == 0: return ("at", it[1], st)
            r, sts = decide(E, st, d, lambda x: x)
            if r == "split": return ("split", sts)
            if r == 0: return ("at", it[1], st)
            if r < 0: return ("oob",)
            s = ladd(s, 1)
        else:
            n = it[1]
            rem = ladd(lsub(n, d), -1)
            r, sts = decide(E, st, rem, lambda x: x >= 0)
            if r == "split": return ("split", sts)
            if r:
                r2, sts = decide(E, st, d, lambda x: x >= 0)
                if r2 == "split": return ("split", sts)
                if not r2: return ("oob",)
                res = []
                fs = sorted(it[2], key=repr)
                for j, fm in enumerate(fs):
                    n2 = st.fork()
                    res += [(q, o) for q, o in fill(E, n2, fm)]
                out = []
                for q, oid in res:
                    sq = getseq(q, loc)
                    # the generator may have substituted: recompute from the item list
                    it2 = sq.items[k] if k < len(sq.items) and sq.items[k][0] == "G" else it
                    mid = ((("G", d, it2[2]),) if d != 0 else ()) + (("E", oid),) + ((("G", rem, it2[2]),) if rem != 0 else ())
                    setseq(q, loc, Seq(sq.et, sq.items[:k] + mid + sq.items[k + 1:]))
                    out.append(q)
                if len(out) == 1: return ("at", res[0][1], out[0])
                return ("split", out)
            s = ladd(s, n)
    d = lsub(pos, s)
    r, sts = decide(E, st, d, lambda x: x)
    if r == "split": return ("split", sts)
    return ("end",) if r == 0 else ("oob",)


def lookup_tok(E, st, loc, seq, pos, ins):
    """an index that is an unknown value: it designates one of the elements (or none)"""
    toks = [(v, k) for v, k in pos.vs if not isinstance(v, int)]
    if len(toks) != 1 or abs(toks[0][1]) != 1:
        raise Unsupported("element at index %r at %s" % (pos, E.loc(ins)))
    t, k = toks[0]
    weak = t.startswith("*")
    out = []; s = 0
    def solve(n, target):
        # pos == target  ->  t := k*(target - rest)
        rest = replace(pos, t, 0)
        return ladd(0, lsub(target, rest), k)
    h = getattr(E.dom, "tok_ranges", None)
    rng = h(E, st, t, seq, loc) if h else None        # None: any position; else predicate on (item index)
    for idx, it in enumerate(seq.items):
        if rng is not None and idx not in rng:
            s = ladd(s, 1 if it[0] == "E" else it[1]); continue
        if it[0] == "E":
            n = st.fork()
            if weak: out.append((n, it[1]))
            else:
                try: subst(n, t, solve(n, s))
                except Infeasible: n = None
                if n is not None and facts_ok(E, n): out.append((n, it[1]))
            s = ladd(s, 1)
        else:
            n = st.fork()
            cnt = it[1]
            if isinstance(cnt, Lin):
                v0 = [v for v, q in cnt.vs if q == 1 and isinstance(v, int)]
                if not v0: raise Unsupported("gap of size %r" % cnt)
                v0 = v0[0]
                x = var(n); y = var(n)
                # cnt = x + 1 + y
                rest = replace(cnt, v0, 0)
                by = lsub(ladd(ladd(x, y), 1), rest)
                if not nonneg(by):
                    if rest == 1: by = ladd(x, y)
                    else: raise Unsupported("gap of size %r" % cnt)
                s2 = replace(s, v0, by)
                subst(n, v0, by)
                target = ladd(s2, x)
            else:
                if cnt != 1: raise Unsupported("gap of fixed size %r" % cnt)
                target = s
            if not weak:
                try: subst(n, t, solve(n, target))
                except Infeasible: n = None
                if n is not None and facts_ok(E, n):
                    r = lookup(E, n, loc, target, ins)
                    if r[0] == "at": out.append((r[2], None))
                    elif r[0] == "split": out += [(q, None) for q in r[1]]
                    else: raise Unsupported("token index")
            else:
                r = lookup(E, n, loc, target, ins)
                if r[0] == "at": out.append((r[2], r[1]))
                else: raise Unsupported("weak index into a mixed gap")
            s = ladd(s, it[1])
    h = getattr(E.dom, "tok_out_of_range", None)
    if h: h(E, st, t, seq, ins)
    if weak:
        return ("weak", out)
    return ("split", [n for n, _ in out])


def facts_ok(E, st):
    for d, s in st.mon.get("facts", frozenset()):
        pass
    return True


# ---- canonical form at merge points ------------------------------------------------------
class _Ren:
    def __init__(self, st):
        self.st = st; self.order = {}; self.queue = []; self.nums = []; self.lazy = True; self.tmap = {}; self.cur = []; self.vecs = []

    def __call__(self, oid):
        if isinstance(oid, tuple):
            o = self.st.mem.get(oid)
            if o is None or o.ro: return oid
        if oid not in self.order:
            self.order[oid] = len(self.order); self.queue.append(oid)
        return self.order[oid]


def haspin(st, oid, seen=None):
    """does the element carry a tracked value"""
    o = st.mem.get(oid)
    if o is None: return False
    if o.tag == "pin": return True
    for a, (s, v) in o.cells.items():
        if valpin(st, v): return True
    return False


def valpin(st, v):
    if isinstance(v, Tok): return v.pin
    if isinstance(v, Lin): return any(isinstance(x, str) and x.startswith("!") for x, _ in v.vs)
    if isinstance(v, Seq): return any(i[0] == "E" and haspin(st, i[1]) for i in v.items)
    if isinstance(v, Agg): return any(valpin(st, x) for _, _, x in v.cells)
    if isinstance(v, tuple): return any(valpin(st, x) for x in v)
    p = getattr(v, "pin", False)
    return bool(p)


def form_of(E, st, et, oid):
    h = getattr(E.dom, "classify", None)
    if h:
        r = h(E, st, et, oid)
        if r is not None: return r
    return struct_form(E, st, oid)


def struct_form(E, st, oid):
    o = st.mem[oid]; cells = []
    for a, (s, v) in sorted(o.cells.items()):
        if isinstance(v, Seq):
            fs = frozenset(); lo = 0
            for i in v.items:
                if i[0] == "E": fs |= {form_of(E, st, v.et, i[1])}; lo = 1
                else:
                    fs |= i[2]
                    if parts(i[1])[0] >= 1: lo = 1
            v = ("seq", v.et, fs, lo)
        elif isinstance(v, Lin):
            if any(isinstance(x, int) for x, _ in v.vs): v = ("any",)
        elif isinstance(v, Ptr):
            if not (isinstance(v.obj, tuple) and isinstance(v.off, int)): v = ("any",)
        elif v is TOP: v = ("any",)
        elif isinstance(v, CInt): v = int(v)
        elif isinstance(v, (SIt, BRef)): v = ("any",)
        elif isinstance(v, Model):
            hf = getattr(v, "form", None)
            v = hf(E, st) if hf else ("any",)
        cells.append((a, s, v))
    return ("c", tuple(cells))


def canonicalise(E, st):
    h = getattr(E.dom, "normalise", None)
    if h: h(E, st)
    ren = _Ren(st)
    n = len(st.frames)
    for k, fr in enumerate(st.frames):
        for r in live_regs(fr, k == n - 1):
            if r in fr.regs: canon_val(fr.regs[r], ren)
    for k, v in st.mon.items():
        if k not in ("facts", "nv"): canon_val(v, ren)
    if st.scratch is not None: canon_val(st.scratch, ren)
    seqs = []; referenced = None
    i = 0
    nums = ren.nums
    def drain():
        nonlocal i
        while i < len(ren.queue):
            oid = ren.queue[i]; i += 1
            o = st.mem.get(oid)
            if o is None: continue
            for a, c in sorted(o.cells.items()):
                canon_val(c[1], ren)
                if isinstance(c[1], Seq): seqs.append((oid, a))
    drain()
    referenced = set(ren.order)
    unf = set()         # unfoldable elements
    j = 0
    while j < len(seqs):
        sq = getseq(st, seqs[j]); j += 1
        for it in sq.items:
            if it[0] == "E" and it[1] not in referenced and haspin(st, it[1]):
                unf.add(it[1])
                ren(it[1]); drain()
    # positions of elements that must stay visible
    keep = {}
    prefix = {}
    for loc in seqs:
        sq = getseq(st, loc); s = 0; pf = []
        for it in sq.items:
            pf.append(s)
            if it[0] == "E" and (it[1] in referenced or it[1] in unf): keep.setdefault(s, set()).add(loc)
            s = ladd(s, 1 if it[0] == "E" else it[1])
        pf.append(s); prefix[loc] = pf
    marks = {x for x in nums if isinstance(x, Lin)}
    if getattr(E.dom, "int_marks", False): marks |= {x for x in live_values(st) if isinstance(x, CInt) and x > 0}
    for loc in seqs:
        sq = getseq(st, loc)
        if not sq.items: continue
        pf = prefix[loc]; out = []
        for k, it in enumerate(sq.items):
            if it[0] == "E" and it[1] not in referenced and it[1] not in unf and not (keep.get(pf[k], set()) - {loc}):
                f = form_of(E, st, sq.et, it[1])
                if f is None:
                    out.append((it, pf[k])); continue
                it = ("G", 1, frozenset((f,)))
            if out and it[0] == "G" and out[-1][0][0] == "G":
                if pf[k] not in marks:
                    p = out[-1][0]
                    out[-1] = (("G", ladd(p[1], it[1]), p[2] | it[2]), out[-1][1])
                    continue
            out.append((it, pf[k]))
        items = tuple(x for x, _ in out)
        items = tuple(("G", x[1], bound_forms(E, sq.et, x[2])) if x[0] == "G" else x for x in items)
        if items != sq.items: setseq(st, loc, Seq(sq.et, items))
    counts(E, st, seqs)


def bound_forms(E, et, fs):
    if len(fs) <= 24: return fs
    raise Unsupported("too many shapes of %s" % et)


def widen(st, seqs, g):
    """every gap of count g gets the count 1+w (w new, at least 0); values that name a
    boundary of a list follow the boundary"""
    w = fresh(st); by = Lin(1, ((w, 1),)) if nonneg(ladd(g, -1)) else Lin(0, ((w, 1),))
    maps = {}; glob = {}
    for loc in seqs:
        sq = getseq(st, loc); o = 0; n = 0; m = {}; items = []; ch = False
        for it in sq.items:
            if it[0] == "G" and it[1] == g:
                it2 = ("G", by, it[2]); ch = True
            else: it2 = it
            o = ladd(o, 1 if it[0] == "E" else it[1]); n = ladd(n, 1 if it2[0] == "E" else it2[1])
            if ch:
                m[o] = n
                if isinstance(o, Lin) or o >= 2: glob.setdefault(o, n)
            items.append(it2)
        if ch:
            maps[loc] = m; setseq(st, loc, Seq(sq.et, tuple(items)))
    def fn(x):
        if not isinstance(x, (Lin, CInt)): return x
        if x in glob: return glob[x]
        y = ladd(x, -1)
        if y in glob: return ladd(glob[y], 1)     # one past a boundary
        return x
    fn.byloc = lambda loc, x: maps[loc].get(x, x) if loc in maps else x
    fn.gaps = False
    mapstate(st, fn)


def counts(E, st, seqs):
    for _ in range(80):
        cn = []; B = 4
        for loc in seqs:
            for it in getseq(st, loc).items:
                B += 1
                if it[0] == "G": cn.append(it[1])
        # a. gaps of a fixed count
        K = [x for x in cn if isinstance(x, int) and x >= 2]
        if K:
            widen(st, seqs, K[0]); continue
        live = live_values(st)
        ci = [x for x in live if isinstance(x, CInt) and B <= x < (1 << 31)]
        if ci:
            w = fresh(st)
            def fn(x, w=w):
                if isinstance(x, CInt) and B <= x < (1 << 31): return Lin(int(x) - 1, ((w, 1),))
                return x
            fn.gaps = False
            mapstate(st, fn)
            continue
        lins = [x for x in live if isinstance(x, Lin)] + [x for x in cn if isinstance(x, Lin)]
        # b. gap counts with several variables or a constant above 1
        odd = [x for x in cn if isinstance(x, Lin) and (len(x.vs) > 1 or x.c >= 2 or x.vs[0][1] != 1)]
        if odd:
            e = odd[0]; m = 1 if e.c >= 1 else 0; done = False
            for p, k in e.vs:
                if k != 1 or not isinstance(p, int): continue
                w = fresh(st)
                rest = replace(e, p, 0)
                by = lsub(Lin(m, ((w, 1),)), rest)
                ok = True
                for L in lins:
                    if any(v == p for v, _ in L.vs):
                        L2 = replace(L, p, by)
                        if nonneg(L) and not nonneg(L2): ok = False; break
                if ok:
                    subst(st, p, by); done = True; break
            if not done: widen(st, seqs, e)
            continue
        # c. counters that no list bounds
        big = [x for x in lins if x.c >= B and any(isinstance(v, int) and k == 1 for v, k in x.vs)]
        if big:
            L = max(big, key=lambda x: x.c)
            p = [v for v, k in L.vs if isinstance(v, int) and k == 1][0]
            w = fresh(st)
            by = Lin(L.c - 1, ((w, 1),))
            def fn(x): return by if x == L else x
            fn.gaps = False
            mapstate(st, fn)
            continue
        return
    raise Unsupported("counts do not settle")


def mapnum(st, seqs, fn):
    mapstate(st, fn)


def live_values(st):
    out = []
    n = len(st.frames)
    def add(v):
        if isinstance(v, (Lin, CInt)): out.append(v)
        elif isinstance(v, SIt): out.append(v.pos)
        elif isinstance(v, Agg):
            for _, _, x in v.cells: add(x)
        elif isinstance(v, tuple) and not isinstance(v, Ptr):
            for x in v: add(x)
    for k, fr in enumerate(st.frames):
        for r in live_regs(fr, k == n - 1):
            if r in fr.regs: add(fr.regs[r])
    for oid, o in st.mem.items():
        if o.ro: continue
        for a, (s, v) in o.cells.items():
            if not isinstance(v, Seq): add(v)
    for k, v in st.mon.items():
        if k not in ("facts", "nv"): add(v)
    return out


# ---- domain -------------------------------------------------------------------------------
class SeqDomain(Domain):
    """numbers and opaque tokens"""
    def key(self, st, ren):
        F = st.mon.get("facts")
        return tuple(sorted(((k, canon_val(v, ren)) for k, v in st.mon.items() if k not in ("facts", "nv")), key=repr))

    def late_key(self, st, ren):
        F = st.mon.get("facts", frozenset())
        live = set(ren.tmap)
        out = []
        for d, s in F:
            if all(not isinstance(v, int) or v in live for v, _ in d.vs): out.append((d.canon(ren), s))
        return tuple(sorted(out, key=repr))

    # opaque booleans and integers
    def tok_cmp(self, E, st, a, b, bits):
        """None or list of (sign, refine); sign None = just unequal"""
        return None

    def icmp(self, E, st, pred, a, b, bits):
        if isinstance(a, Lin) or isinstance(b, Lin):
            if isnum(a) and isnum(b):
                a2 = a if isinstance(a, Lin) else signed(a, bits); b2 = b if isinstance(b, Lin) else signed(b, bits)
                d = lsub(a2, b2) if isinstance(a2, Lin) else ladd(mkint(a2), b2, -1)
                p = pred[1:] if pred not in ("eq", "ne") else pred
                T = {"eq": lambda s: s == 0, "ne": lambda s: s != 0, "gt": lambda s: s > 0, "ge": lambda s: s >= 0, "lt": lambda s: s < 0, "le": lambda s: s <= 0}[p]
                outs = [(T(s), rf) for s, rf in signs(E, st, d)]
                if len(outs) > 1 and len({t for t, _ in outs}) == 1: return [(outs[0][0], None)]
                return outs
        if isinstance(a, SIt) and isinstance(b, SIt) and a.loc == b.loc:
            return self.icmp(E, st, "s" + pred[1:] if pred[0] == "u" and pred != "eq" else pred, a.pos, b.pos, 64)
        if pred in ("eq", "ne"):
            if a == b and isinstance(a, AV) and not weak(a): return [(pred == "eq", None)]
            if isinstance(a, Tok) or isinstance(b, Tok):
                return self.tok_eq(E, st, pred, a, b)
        return [(True, None), (False, None)]

    def tok_eq(self, E, st, pred, a, b):
        if isinstance(b, Tok) and not isinstance(a, Tok): a, b = b, a
        F = dict(st.mon.get("teq", ()))
        k = (a, b) if not isinstance(b, Tok) or repr(a) <= repr(b) else (b, a)
        h = getattr(self, "tok_known", None)
        if h:
            r = h(E, st, a, b)
            if r is not None: return [((pred == "eq") == r, None)]
        if weak(a) or weak(b): return [(True, None), (False, None)]
        if k in F: return [((pred == "eq") == F[k], None)]
        if isinstance(b, int):
            for (x, y), v in F.items():
                if x == a and isinstance(y, int) and v: return [((pred == "eq") == (y == b), None)]
        def rf(t):
            def g(s):
                s.mon["teq"] = tuple(sorted(dict(s.mon.get("teq", ()), **{}).items(), key=repr)) if False else tuple(sorted(list(s.mon.get("teq", ())) + [(k, t)], key=repr))
            return g
        return [(pred == "eq", rf(True)), (pred != "eq", rf(False))]

    def truth(self, E, st, c):
        if isinstance(c, Lin): return [(s != 0, rf) for s, rf in signs(E, st, c)]
        if isinstance(c, Tok):
            return [((t), rf) for t, rf in self.tok_eq(E, st, "ne", c, 0)]
        return [(True, None), (False, None)]

    def binop(self, E, st, op, a, b, bits, ins):
        if (isinstance(a, Lin) or isinstance(b, Lin)) and isnum(a) and isnum(b):
            x = a if isinstance(a, Lin) else mkint(signed(a, bits)); y = b if isinstance(b, Lin) else mkint(signed(b, bits))
            if op == "add": return wrap(ladd(x, y), bits)
            if op == "sub": return wrap(ladd(x, y, -1), bits)
            if op == "mul" and isinstance(y, int): return wrap(ladd(0, x, signed(b, bits)), bits)
            if op == "mul" and isinstance(x, int): return wrap(ladd(0, y, signed(a, bits)), bits)
            if op == "shl" and isinstance(b, int): return wrap(ladd(0, x, 1 << b), bits)
            if op in ("sdiv", "ashr", "udiv", "lshr") and isinstance(b, int):
                q = b if op.endswith("div") else 1 << b
                if isinstance(x, Lin) and x.c % q == 0 and all(k % q == 0 for _, k in x.vs):
                    return wrap(mk(x.c // q, {v: k // q for v, k in x.vs}), bits)
        if op in ("and", "or") and bits == 1:
            if isinstance(a, int): a, b = b, a
            if isinstance(b, int):
                if op == "and": return a if b & 1 else 0
                return 1 if b & 1 else a
            return Alts([(v, rf) for v, rf in self._bool2(E, st, op, a, b)])
        if op == "xor" and bits == 1 and isinstance(a, Tok) and b == 1:
            return Alts([(0 if t else 1, rf) for t, rf in self.truth(E, st, a)])
        if op == "or" and bits == 8 and (isinstance(a, Tok) or isinstance(b, Tok)):
            # flag |= flag
            return Alts([(v, rf) for v, rf in self._bool2(E, st, op, a, b)])
        return TOP

    def _bool2(self, E, st, op, a, b):
        out = []
        def tr(v): return [(bool(v & 1), None)] if isinstance(v, int) else self.truth(E, st, v)
        for t, rf in tr(a):
            if op == "or" and t or op == "and" and not t:
                out.append((1 if t else 0, rf)); continue
            for u, rg in tr(b):
                def both(s, rf=rf, rg=rg):
                    if rf: rf(s)
                    if rg: rg(s)
                out.append((1 if u else 0, both))
        return out

    def cast(self, E, st, op, v, sb, db, ins):
        if isinstance(v, (Lin, Tok, SIt)): return v
        return TOP

    def switch(self, E, st, v, cases, bits):
        if isinstance(v, Lin):
            out = []
            for c in cases:
                for s, rf in signs(E, st, lsub(v, signed(c, bits))):
                    if s == 0: out.append((c, rf))
            out.append((None, None))
            return out
        if isinstance(v, Tok):
            out = []
            for c in cases:
                for t, rf in self.tok_eq(E, st, "eq", v, c):
                    if t: out.append((c, rf))
            def rest(s):
                for c in cases:
                    ok = False
                    for t, rf in self.tok_eq(E, s, "eq", v, c):
                        if not t:
                            if rf: rf(s)
                            ok = True; break
                    if not ok: raise Infeasible()
            out.append((None, rest))
            return out
        return None


def weak(x):
    n = x.n if isinstance(x, Tok) else None
    return isinstance(n, str) and n.startswith("*") or isinstance(n, tuple) and isinstance(n[0], str) and n[0].startswith("*")


def mkint(x): return CInt(x)


def wrap(x, bits):
    if isinstance(x, int): return CInt(x & ((1 << bits) - 1))
    return x


# ---- engine integration: counting integers ---------------------------------------------------
def counter_instrs(f):
    """add/sub by a constant that advances a loop variable or a stored counter"""
    c = f.__dict__.get("_ctr") if hasattr(f, "__dict__") else _CTR.get(f.name)
    if c is not None: return c
    defs = {}
    for blk in f.blocks:
        for ins in blk:
            if "id" in ins: defs[ins["id"]] = ins
    def back(o, seen):
        """casts and adds back to phi / load"""
        while o[0] == "r":
            d = defs.get(o[1])
            if d is None: return None
            if d["op"] in ("sext", "zext", "trunc"): o = d["ops"][0]; continue
            return d
        return None
    res = set()
    for blk in f.blocks:
        for ins in blk:
            if ins["op"] in ("add", "sub") :
                for k in (0, 1):
                    d = back(ins["ops"][k], set())
                    if d is None: continue
                    if d["op"] in ("phi", "load"): res.add(ins["id"])
    _CTR[f.name] = res
    return res


_CTR = {}


class SeqEngine(Engine):
    def binop(self, st, op, a, b, bits, ins):
        r = Engine.binop(self, st, op, a, b, bits, ins)
        if type(r) is int and op in ("add", "sub"):
            if isinstance(a, CInt) or isinstance(b, CInt): return CInt(r)
            fr = st.frames[-1]
            if ins.get("id") in counter_instrs(fr.f): return CInt(r)
        return r

    def cast(self, st, op, v, sb, db, ins):
        r = Engine.cast(self, st, op, v, sb, db, ins)
        if isinstance(v, CInt) and type(r) is int: return CInt(r)
        return r

    def key(self, st):
        canonicalise(self, st)
        return Engine.key(self, st)

    def handler(self, f):
        if f.name in self.hcache: return self.hcache[f.name]
        h = Engine.handler(self, f)
        if h is None:
            h = container_handler(self, f)
        if h is None and f.noreturn and not f.defined:
            h = lambda E, st, f, a, ins: throw_or_abort(E, st, f, a, ins)
        self.hcache[f.name] = h
        return h


def throw_or_abort(E, st, f, a, ins):
    m = re.match(r"std::__throw_(\w+)", f.dem)
    if m: return ("throw", "std::" + m.group(1))
    b = engine.BUILTIN.get(f.name)
    if b: return b(E, st, f, a, ins)
    return ("end", "abort", f.dem)


# ---- vector handlers ---------------------------------------------------------------------------
def at(E, st, p, pos, ins, what, wr=None):
    """result of an element access through container p"""
    h = getattr(E.dom, "stream", None)
    if h:
        r = h(E, st, p, pos, ins, what, wr)
        if r is not None: return r
    r = lookup(E, st, (p.obj, p.off), pos, ins)
    conv = wr or (lambda s, oid: Ptr(oid, 0))
    if r[0] == "at":
        if r[2] is st: return ("val", conv(st, r[1]))
        return ("alts", [(r[2], ("val", conv(r[2], r[1])))])
    if r[0] == "split": return again(r[1])
    if r[0] == "weak": return ("alts", [(s, ("val", conv(s, o))) for s, o in r[1]])
    if what == "at": return ("throw", "std::out_of_range")
    raise Violation("%s outside the container (index %r of %r)" % (what, pos, getseq(st, p)), st, E.loc(ins), "bounds")


def itv(E, st, p, ins):
    if isinstance(p, SIt): return p
    if isinstance(p, Ptr):
        v = E.load(st, p, 8, ins)
        if isinstance(v, SIt): return v
    raise Unsupported("iterator expected, found %r at %s" % (p, E.loc(ins)))


def new_copy(E, st, et, src, ins):
    if not isinstance(src, Ptr): raise Unsupported("element at unknown address %r at %s" % (src, E.loc(ins)))
    oid = st.new(None, "elem")
    so = E.getobj(st, src.obj)
    sz = ebytes(E, et)
    for a, (s, v) in sorted(so.cells.items()):
        if a >= src.off and (sz is None or a + s <= src.off + sz):
            if isinstance(v, Model): v = v.clone(st, E)
            st.mem[oid].cells[a - src.off] = (s, v)
    if not st.mem[oid].cells and sz is not None:
        v = E.load(st, src, sz, ins)
        if v is not UNDEF: st.mem[oid].cells[0] = (sz, v)
    return oid


def ebytes(E, et):
    et = et.strip()
    if et in PRIM: return PRIM[et]
    if et.endswith("*"): return 8
    t = E.mod.types.get(et) or E.mod.types.get(et.replace(">>", "> >"))
    if t: return t["size"]
    h = getattr(E.dom, "elem_bytes", None)
    r = h(et) if h else None
    if r is None and "::" in et:
        for n, t in E.mod.types.items():
            if n.replace(" ", "") == et.replace(" ", ""): return t["size"]
        return 4 if "Tag" in et else None
    return r


def fet(f):
    c, ca, m, p = parse_dem(f.dem)
    return short_et(ca[0]) if ca else "?"


def split_at(E, st, loc, pos, ins):
    """make pos an item boundary; -> index of the item starting there, or ('split', states)"""
    seq = getseq(st, loc); s = 0
    for k, it in enumerate(seq.items):
        d = lsub(pos, s)
        if d == 0: return k
        n = 1 if it[0] == "E" else it[1]
        over = lsub(d, n)
        r, sts = decide(E, st, over, lambda x: x >= 0)
        if r == "split": return ("split", sts)
        if r:
            s = ladd(s, n); continue
        r, sts = decide(E, st, d, lambda x: x > 0)
        if r == "split": return ("split", sts)
        if not r: raise Violation("position before the container", st, E.loc(ins), "bounds")
        setseq(st, loc, Seq(seq.et, seq.items[:k] + (("G", d, it[2]), ("G", lsub(n, d), it[2])) + seq.items[k + 1:]))
        return k + 1
    d = lsub(pos, s)
    r, sts = decide(E, st, d, lambda x: x)
    if r == "split": return ("split", sts)
    if r == 0: return len(seq.items)
    raise Violation("position past the end of the container", st, E.loc(ins), "bounds")


def cut(E, st, loc, p, q, ins):
    """items between two positions -> (i, j) or ('split', states)"""
    i = split_at(E, st, loc, p, ins)
    if isinstance(i, tuple): return i
    j = split_at(E, st, loc, q, ins)
    if isinstance(j, tuple): return j
    i = split_at(E, st, loc, p, ins)
    if isinstance(i, tuple): return i
    return (i, j)


def clone_items(E, st, items):
    return tuple(("E", clone_obj(st, E, i[1])) if i[0] == "E" else i for i in items)


def aligned_items(E, st, n, form):
    """items of a list of n equal elements, aligned with an existing list of that length"""
    best = None
    for oid in sorted((k for k in st.mem if isinstance(k, int))):
        for a, (s, v) in st.mem[oid].cells.items():
            if isinstance(v, Seq) and v.items and v.total() == n:
                if best is None or len(v.items) > len(best.items): best = v
    items = []
    if best is not None:
        for it in best.items:
            if it[0] == "E":
                items.append(("E", fill(E, st, form)[0][1]))
            else: items.append(("G", it[1], frozenset((form,))))
        return tuple(items)
    if isinstance(n, int):
        n = int(n)
        if 0 <= n <= 4: return tuple(("E", fill(E, st, form)[0][1]) for _ in range(n))
        return (("G", n, frozenset((form,))),)
    if n != 0: return (("G", n, frozenset((form,))),)
    return ()


def q_ctor(E, st, f, a, ins):
    c, ca, m, params = parse_dem(f.dem)
    et = short_et(ca[0]); this = a[0]
    if not params or params[0].startswith("std::allocator"):
        initseq(E, st, this, Seq(et)); return ("val", None)
    p0 = params[0]
    if p0.startswith("std::vector<") and p0.endswith("&&"):
        s = seq_at(E, st, a[1], ins)
        initseq(E, st, this, s); setseq(st, a[1], Seq(et)); return ("val", None)
    if p0.startswith("std::vector<"):
        s = seq_at(E, st, a[1], ins)
        initseq(E, st, this, s.clone(st, E)); return ("val", None)
    if p0.startswith("unsigned long"):
        n = a[1]
        if not isnum(n): raise Unsupported("vector of unknown size %r at %s" % (n, E.loc(ins)))
        if isinstance(n, int): n = CInt(n)
        if len(params) > 1 and not params[1].startswith("std::allocator"):
            src = new_copy(E, st, et, a[2], ins)
        else:
            src = st.new(None, "elem"); b = ebytes(E, et)
            if et in PRIM or et.endswith("*") or b in (1, 2, 4, 8): st.mem[src].cells[0] = (b, 0)
            else: raise Unsupported("default elements of %s" % et)
        if haspin(st, src): raise Unsupported("vector filled with a tracked value")
        form = form_of(E, st, et, src)
        initseq(E, st, this, Seq(et, aligned_items(E, st, n, form)))
        return ("val", None)
    if "iterator" in p0.lower():
        first = itv(E, st, a[1], ins); last = itv(E, st, a[2], ins)
        r = cut(E, st, first.loc, first.pos, last.pos, ins)
        if r[0] == "split": return again(r[1])
        initseq(E, st, this, Seq(et, clone_items(E, st, getseq(st, first.loc).items[r[0]:r[1]])))
        return ("val", None)
    if p0.startswith("std::initializer_list"):
        # (ptr, len)
        n = a[2] if len(a) > 2 else None
        if isinstance(a[1], Ptr) and isinstance(n, int):
            b = ebytes(E, et)
            initseq(E, st, this, Seq(et, tuple(("E", new_copy(E, st, et, Ptr(a[1].obj, a[1].off + b * k), ins)) for k in range(n))))
            return ("val", None)
    raise Unsupported("vector constructor %s" % f.dem)


def q_assign(E, st, f, a, ins):
    c, ca, m, params = parse_dem(f.dem)
    if a[0] == a[1]: return ("val", a[0])
    s = seq_at(E, st, a[1], ins)
    if params[0].endswith("&&"):
        setseq(st, a[0], s); setseq(st, a[1], Seq(s.et))
    else: setseq(st, a[0], s.clone(st, E))
    return ("val", a[0])


def q_noop(E, st, f, a, ins): return ("val", None)
def q_begin(E, st, f, a, ins):
    seq_at(E, st, a[0], ins)
    return ("val", SIt((a[0].obj, a[0].off), CInt(0)))
def q_end(E, st, f, a, ins):
    return ("val", SIt((a[0].obj, a[0].off), seq_at(E, st, a[0], ins).total()))


def q_push(E, st, f, a, ins):
    et = fet(f); v = seq_at(E, st, a[0], ins)
    if et == "bool":
        oid = st.new(None, "elem"); st.mem[oid].cells[0] = (1, a[1])
    else: oid = new_copy(E, st, et, a[1], ins)
    v = seq_at(E, st, a[0], ins)
    setseq(st, a[0], Seq(v.et, v.items + (("E", oid),)))
    h = getattr(E.dom, "pushed", None)
    if h: h(E, st, a[0], oid, ins)
    return ("val", None)


def q_emplace(E, st, f, a, ins):
    et = fet(f); v = seq_at(E, st, a[0], ins)
    g = construct_fn(E, f, len(a))
    if g is None: raise Unsupported("no construct function under %s" % f.dem)
    oid = st.new(None, "elem")
    # the element becomes part of the list once it is constructed
    loc = a[0]
    c, ca, m, params = parse_dem(g.dem)
    cargs = ([Ptr(oid, 0)] if m != "construct" else [a[0], Ptr(oid, 0)]) + list(a[1:])
    if len(g.args) != len(cargs):
        cargs = cargs[-len(g.args):] if len(g.args) < len(cargs) else [a[0]] + cargs
    def done(s, _):
        q = getseq(s, loc)
        setseq(s, loc, Seq(q.et, q.items + (("E", oid),)))
        h = getattr(E.dom, "pushed", None)
        if h: h(E, s, loc, oid, ins)
        return Ptr(oid, 0)
    return ("call", g, cargs, done)


def q_size(E, st, f, a, ins): return ("val", seq_at(E, st, a[0], ins).total())


def q_empty(E, st, f, a, ins):
    t = seq_at(E, st, a[0], ins).total()
    r, sts = decide(E, st, t, lambda s: s == 0)
    if r == "split": return again(sts)
    return ("val", 1 if r else 0)


def q_back(E, st, f, a, ins):
    t = seq_at(E, st, a[0], ins).total()
    r, sts = decide(E, st, t, lambda s: s > 0)
    if r == "split": return again(sts)
    if not r: raise Violation("back() of an empty container", st, E.loc(ins), "bounds")
    return at(E, st, a[0], ladd(t, -1), ins, "back()")


def q_front(E, st, f, a, ins): return at(E, st, a[0], CInt(0), ins, "front()")


def q_index(E, st, f, a, ins):
    i = a[1]
    if isinstance(i, int): i = CInt(signed(i, 64))
    if not isnum(i):
        h = getattr(E.dom, "index_unknown", None)
        r = h(E, st, a[0], i, ins) if h else None
        if r is not None: return r
        raise Unsupported("element at unknown index %r at %s" % (i, E.loc(ins)))
    c, ca, m, p = parse_dem(f.dem)
    if ca and ca[0] == "bool":
        if f.dem.endswith("const"):
            return at(E, st, a[0], i, ins, m, lambda s, oid: E.load(s, Ptr(oid, 0), 1, ins))
        return at(E, st, a[0], i, ins, m, lambda s, oid: Agg(((0, 8, BRef(oid)), (8, 8, 1))))
    return at(E, st, a[0], i, ins, "at" if m == "at" else "operator[]")


def b_get(E, st, f, a, ins):
    r = E.load(st, a[0], 8, ins)
    if not isinstance(r, BRef): raise Unsupported("bit reference %r" % (r,))
    return ("val", E.load(st, Ptr(r.oid, 0), 1, ins))


def b_set(E, st, f, a, ins):
    r = E.load(st, a[0], 8, ins)
    v = a[1]
    if isinstance(v, Ptr):
        q = E.load(st, v, 8, ins)
        v = E.load(st, Ptr(q.oid, 0), 1, ins)
    E.store(st, Ptr(r.oid, 0), v, 1, ins)
    return ("val", a[0])


def q_pop(E, st, f, a, ins):
    v = seq_at(E, st, a[0], ins); t = v.total()
    if not v.items: raise Violation("pop_back of an empty container", st, E.loc(ins), "bounds")
    if v.items[-1][0] == "E":
        setseq(st, a[0], Seq(v.et, v.items[:-1])); return ("val", None)
    r, sts = decide(E, st, t, lambda s: s > 0)
    if r == "split": return again(sts)
    if not r: raise Violation("pop_back of an empty container", st, E.loc(ins), "bounds")
    r = lookup(E, st, (a[0].obj, a[0].off), ladd(t, -1), ins)
    if r[0] == "at":
        s = r[2]; v = getseq(s, a[0])
        setseq(s, a[0], Seq(v.et, v.items[:-1]))
        return ("val", None) if s is st else ("alts", [(s, ("val", None))])
    if r[0] == "split": return again(r[1])
    raise Unsupported("pop_back")


def q_clear(E, st, f, a, ins):
    setseq(st, a[0], Seq(fet(f))); return ("val", None)


def q_swap(E, st, f, a, ins):
    x = seq_at(E, st, a[0], ins); y = seq_at(E, st, a[1], ins)
    setseq(st, a[0], y); setseq(st, a[1], x); return ("val", None)


def q_insert(E, st, f, a, ins):
    c, ca, m, params = parse_dem(f.dem)
    et = short_et(ca[0])
    pos = itv(E, st, a[1], ins); loc = (a[0].obj, a[0].off)
    if len(params) == 3 and "iterator" in params[1].lower() or len(params) == 3 and "It" in params[1]:
        first = itv(E, st, a[2], ins); last = itv(E, st, a[3], ins)
        h = getattr(E.dom, "stream_range", None)
        new = h(E, st, first, last, ins) if h else None
        r = (0, 0) if new is not None else cut(E, st, first.loc, first.pos, last.pos, ins)
        if r[0] == "split": return again(r[1])
        if new is None: new = clone_items(E, st, getseq(st, first.loc).items[r[0]:r[1]])
    elif len(params) == 2:
        new = (("E", new_copy(E, st, et, a[2], ins)),)
    else: raise Unsupported("vector::insert form %s" % f.dem)
    k = split_at(E, st, loc, pos.pos, ins)
    if isinstance(k, tuple): return again(k[1])
    v = getseq(st, loc)
    setseq(st, loc, Seq(v.et, v.items[:k] + new + v.items[k:]))
    return ("val", SIt(loc, pos.pos))


def q_erase(E, st, f, a, ins):
    c, ca, m, params = parse_dem(f.dem)
    loc = (a[0].obj, a[0].off)
    pos = itv(E, st, a[1], ins)
    last = itv(E, st, a[2], ins).pos if len(params) == 2 else ladd(pos.pos, 1)
    r = cut(E, st, loc, pos.pos, last, ins)
    if r[0] == "split": return again(r[1])
    v = getseq(st, loc)
    setseq(st, loc, Seq(v.et, v.items[:r[0]] + v.items[r[1]:]))
    return ("val", SIt(loc, pos.pos))


def q_resize(E, st, f, a, ins):
    v = seq_at(E, st, a[0], ins); loc = (a[0].obj, a[0].off)
    n = a[1]
    if not isnum(n): raise Unsupported("resize to %r" % (n,))
    if isinstance(n, int): n = CInt(signed(n, 64))
    d = lsub(v.total(), n)
    r, sts = decide(E, st, d, lambda s: s >= 0)
    if r == "split": return again(sts)
    if r:
        r2, sts = decide(E, st, n if isinstance(n, Lin) else CInt(n), lambda s: s >= 0)
        if r2 == "split": return again(sts)
        if not r2: raise Violation("resize to a negative size", st, E.loc(ins), "bounds")
        k = split_at(E, st, loc, n, ins)
        if isinstance(k, tuple): return again(k[1])
        v = getseq(st, loc)
        setseq(st, loc, Seq(v.et, v.items[:k]))
        return ("val", None)
    h = getattr(E.dom, "grow", None)
    if h:
        r = h(E, st, a, v, n, ins)
        if r is not None: return r
    raise Unsupported("vector::resize growing")


def q_data(E, st, f, a, ins):
    h = getattr(E.dom, "data", None)
    r = h(E, st, a[0], ins) if h else None
    if r is not None: return r
    return ("val", SIt((a[0].obj, a[0].off), CInt(0)))


VEC = {"vector": q_ctor, "~vector": q_noop, "operator=": q_assign, "begin": q_begin, "cbegin": q_begin, "end": q_end, "cend": q_end,
       "push_back": q_push, "emplace_back": q_emplace, "size": q_size, "empty": q_empty, "back": q_back, "front": q_front, "operator[]": q_index,
       "at": q_index, "pop_back": q_pop, "clear": q_clear, "swap": q_swap, "insert": q_insert, "erase": q_erase, "reserve": q_noop,
       "shrink_to_fit": q_noop, "resize": q_resize, "data": q_data}


def i_cmp(op):
    T = {"==": lambda s: s == 0, "!=": lambda s: s != 0, "<": lambda s: s < 0, "<=": lambda s: s <= 0, ">": lambda s: s > 0, ">=": lambda s: s >= 0}[op]
    def h(E, st, f, a, ins):
        x = itv(E, st, a[0], ins); y = itv(E, st, a[1], ins)
        if x.loc != y.loc: raise Unsupported("comparison of iterators of different containers at %s" % E.loc(ins))
        r, sts = decide(E, st, lsub(x.pos, y.pos), T)
        if r == "split": return again(sts)
        return ("val", 1 if r else 0)
    return h


def num(x):
    return x if isinstance(x, Lin) else CInt(signed(x, 64))


def i_step(d):
    def h(E, st, f, a, ins):
        x = itv(E, st, a[0], ins)
        E.store(st, a[0], SIt(x.loc, ladd(x.pos, d)), 8, ins)
        return ("val", x if len(a) > 1 else a[0])
    return h


def i_add(sg):
    def h(E, st, f, a, ins):
        x = itv(E, st, a[0], ins)
        if isnum(a[1]): return ("val", SIt(x.loc, ladd(x.pos, num(a[1]), sg)))
        y = itv(E, st, a[1], ins)
        if x.loc != y.loc: raise Unsupported("difference of iterators of different containers")
        return ("val", wrap(lsub(x.pos, y.pos), 64))
    return h


def i_addeq(sg):
    def h(E, st, f, a, ins):
        x = itv(E, st, a[0], ins)
        E.store(st, a[0], SIt(x.loc, ladd(x.pos, num(a[1]), sg)), 8, ins)
        return ("val", a[0])
    return h


def i_deref(E, st, f, a, ins):
    x = itv(E, st, a[0], ins)
    return at(E, st, Ptr(*x.loc), x.pos, ins, "dereference")


def i_index(E, st, f, a, ins):
    x = itv(E, st, a[0], ins)
    return at(E, st, Ptr(*x.loc), ladd(x.pos, num(a[1])), ins, "operator[]")


def i_copy(E, st, f, a, ins):
    E.store(st, a[0], itv(E, st, a[1], ins), 8, ins)
    return ("val", a[0])


ITM = {"operator++": i_step(1), "operator--": i_step(-1), "operator*": i_deref, "operator->": i_deref, "operator+": i_add(1), "operator-": i_add(-1),
       "operator+=": i_addeq(1), "operator-=": i_addeq(-1), "operator[]": i_index, "__normal_iterator": i_copy, "operator=": i_copy}
ITF = {"operator" + o: i_cmp(o) for o in ("==", "!=", "<", "<=", ">", ">=")}
ITF["operator-"] = i_add(-1)


def a_next(sg):
    def h(E, st, f, a, ins):
        x = itv(E, st, a[0], ins)
        return ("val", SIt(x.loc, ladd(x.pos, num(a[1]) if len(a) > 1 else 1, sg)))
    return h


def a_dist(E, st, f, a, ins):
    x = itv(E, st, a[0], ins); y = itv(E, st, a[1], ins)
    return ("val", wrap(lsub(y.pos, x.pos), 64))


def a_advance(E, st, f, a, ins):
    x = itv(E, st, a[0], ins)
    E.store(st, a[0], SIt(x.loc, ladd(x.pos, num(a[1]))), 8, ins)
    return ("val", None)


ALG = {"next": a_next(1), "prev": a_next(-1), "distance": a_dist, "advance": a_advance}


def container_handler(E, f):
    c, ca, m, p = parse_dem(f.dem)
    if c == "std::vector":
        h = VEC.get(m)
        if h is None:
            def h(E, st, f, a, ins): raise Unsupported("vector operation %s" % f.dem)
        return h
    if c == "std::_Bit_reference":
        if m == "operator=": return b_set
        if m.startswith("operator bool"): return b_get
        return None
    if c == "__gnu_cxx::__normal_iterator":
        h = ITM.get(m)
        if h is None:
            def h(E, st, f, a, ins): raise Unsupported("iterator operation %s" % f.dem)
        return h
    if c in ("__gnu_cxx", "std") and m in ITF and p and "__normal_iterator" in p[0]: return ITF[m]
    if c == "std" and m in ALG and p and "__normal_iterator" in p[0]: return ALG[m]
    ex = getattr(E, "extra_handlers", None)
    if ex:
        return ex.get((c, m))
    return None
