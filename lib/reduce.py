"""The reduction runners against their specification.

A worker body is interpreted with one bank.  The bank holds a well-nested run of
markers of any length; each read of a marker is checked to be the next one in
order.  The specification keeps the same parse stack as the code does (ghost):
an opaque bottom of any size plus explicit top items.  At every marker the
vectors must encode the ghost stack exactly; then the stack is made arbitrary
again (every shape the next step can depend on), so one step from every stack
is checked and the whole document follows by induction.
"""
from linseq import *
from linseq import AV, Model
from engine import Obj
from banks import members

MASK = (1 << 64) - 1
B = "Centaurus::BaseRunner"


class BV(AV):
    """a word given bit by bit: 0, 1 or a named source bit; names in nz are known non-zero as a whole"""
    __slots__ = ("bits",)
    def __init__(self, bits): self.bits = bits
    def canon(self, ren): return self.bits
    def __eq__(self, o): return isinstance(o, BV) and o.bits == self.bits
    def __hash__(self): return hash(self.bits)
    def __repr__(self):
        if all(b == 0 for b in self.bits): return "0"
        out = []; k = 0
        while k < len(self.bits):
            b = self.bits[k]
            if b == 0: k += 1; continue
            j = k
            if b == 1: out.append("bit%d" % k); k += 1; continue
            while j + 1 < len(self.bits) and isinstance(self.bits[j + 1], tuple) and self.bits[j + 1] == (b[0], b[1] + j + 1 - k): j += 1
            out.append("%s[%d..%d]<<%d" % (b[0], b[1], b[1] + j - k, k)); k = j + 1
        return "{%s}" % " ".join(out)

    def nonzero(self):
        """True / None"""
        if any(b == 1 for b in self.bits): return True
        have = {}
        for b in self.bits:
            if isinstance(b, tuple): have.setdefault(b[0], set()).add(b[1])
        for n, s in have.items():
            if n.startswith("id") and s >= set(range(15)): return True
        if all(b == 0 for b in self.bits): return False
        return None

    def const(self):
        if all(b in (0, 1) for b in self.bits): return sum(b << k for k, b in enumerate(self.bits))
        return None


def bconst(v, n): return tuple((v >> k) & 1 for k in range(n))
_F = {}
def field(name, n):
    r = _F.get((name, n))
    if r is None: r = _F[name, n] = tuple((name, k) for k in range(n))
    return r
def marker(sign, idn, offn): return BV(field(offn, 48) + field(idn, 15) + (sign,))
def simp(bv):
    c = bv.const()
    return bv if c is None else c


class BVMixin:
    def bv_binop(self, op, a, b, bits):
        def tobits(x):
            if isinstance(x, BV): return (x.bits + (0,) * bits)[:bits]
            if isinstance(x, int): return bconst(x & ((1 << bits) - 1), bits)
            return None
        if op in ("shl", "lshr", "ashr"):
            if not isinstance(a, BV) or not isinstance(b, int): return None
            x = tobits(a)
            if b >= bits: return TOP
            if op == "shl": return simp(BV(((0,) * b + x)[:bits]))
            return simp(BV(x[b:] + ((0,) if op == "lshr" else (x[-1],)) * b))
        x = tobits(a); y = tobits(b)
        if x is None or y is None: return None
        def f(p, q):
            if op == "and":
                if p == 0 or q == 0: return 0
                if p == 1: return q
                if q == 1 or p == q: return p
            elif op == "or":
                if p == 1 or q == 1: return 1
                if p == 0: return q
                if q == 0 or p == q: return p
            elif op == "xor":
                if p == 0: return q
                if q == 0: return p
                if p == q: return 0
            return None
        if op in ("and", "or", "xor"):
            r = tuple(f(p, q) for p, q in zip(x, y))
            if None not in r: return simp(BV(r))
        if op in ("add", "sub"):
            # fields that do not overlap add without carry
            if op == "add" and all(p == 0 or q == 0 for p, q in zip(x, y)): return simp(BV(tuple(p or q for p, q in zip(x, y))))
        return TOP


DRIVE = {((), False, "S"), (("S",), False, "E"), (("S",), False, "V")}     # explored by every part: they move the positions on


class Dom(BVMixin, SeqDomain):
    int_marks = True

    def __init__(self, mod, stage, swap, py):
        SeqDomain.__init__(self)
        self.mod = mod; self.stage = stage; self.swap = swap; self.py = py
        self.steps = 0; self.calls = 0; self.banks = 0; self.layout = None; self.shapes = set()

    # ---- arithmetic -----------------------------------------------------------
    def binop(self, E, st, op, a, b, bits, ins):
        if isinstance(a, BV) or isinstance(b, BV):
            r = self.bv_binop(op, a, b, bits)
            if r is not None: return r
        return SeqDomain.binop(self, E, st, op, a, b, bits, ins)

    def cast(self, E, st, op, v, sb, db, ins):
        if isinstance(v, BV):
            x = (v.bits + (0,) * db)[:db] if op != "sext" else v.bits + (v.bits[-1],) * (db - len(v.bits))
            return simp(BV(x))
        if isinstance(v, Ptr) or isinstance(v, SIt): return v
        return SeqDomain.cast(self, E, st, op, v, sb, db, ins)

    def icmp(self, E, st, pred, a, b, bits):
        if isinstance(a, BV) or isinstance(b, BV):
            if isinstance(b, BV) and not isinstance(a, BV):
                a, b = b, a; pred = {"gt": "lt", "lt": "gt", "ge": "le", "le": "ge"}.get(pred[1:], pred[1:]).join((pred[0], "")) if pred not in ("eq", "ne") else pred
            if pred in ("eq", "ne"):
                if a == b: return [(pred == "eq", None)]
                if isinstance(b, int) and b == 0:
                    n = a.nonzero()
                    if n is not None: return [((pred == "ne") == n, None)]
                y = b.bits if isinstance(b, BV) else bconst(b & ((1 << len(a.bits)) - 1), len(a.bits)) if isinstance(b, int) else None
                if y is not None and any(p in (0, 1) and q in (0, 1) and p != q for p, q in zip(a.bits, y)): return [(pred == "ne", None)]
            if isinstance(b, int) and pred[0] == "s" and a.bits[-1] in (0, 1):
                s = signed(b, bits); neg = a.bits[-1] == 1
                if neg and s >= 0: return [(pred in ("slt", "sle"), None)]
                if not neg and s < 0: return [(pred in ("sgt", "sge"), None)]
                if not neg and s == 0:
                    if pred == "sge": return [(True, None)]
                    if pred == "slt": return [(False, None)]
                    n = a.nonzero()
                    if n is not None: return [((pred == "sgt") == n, None)]
            return [(True, None), (False, None)]
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SIt) and y == 0 and isinstance(y, int): return [(pred in ("ne", "ugt", "uge"), None)]
        return SeqDomain.icmp(self, E, st, pred, a, b, bits)

    def icmp_null(self, E, st, pred, a, b): return None

    def truth(self, E, st, c):
        if isinstance(c, BV):
            n = c.nonzero()
            return [(n, None)] if n is not None else [(True, None), (False, None)]
        return SeqDomain.truth(self, E, st, c)

    def tok_known(self, E, st, a, b):
        if b == 0 and isinstance(b, int) and a.n in ("listener", "ctx", "result"): return False
        return None

    def lin_facts(self, E, st, d):
        p = st.mon.get("pos")
        if p is not None:
            if d == lsub(st.mon["W"], p): return {0, 1} if p != 0 else {1}
            if d == lsub(p, st.mon["W"]): return {0, -1} if p != 0 else {-1}
        return None

    # ---- memory ------------------------------------------------------------------
    def gep(self, E, st, b, off, sym, ins):
        if isinstance(b, SIt):
            w = 8 if b.loc[0] == "bank" or getattr(getseq(st, b.loc), "et", "") != "int" else 4
            w = self.width(st, b.loc)
            if off % w: raise Unsupported("address inside a word at %s" % E.loc(ins))
            p = ladd(b.pos, off // w)
            for v, sc in sym:
                if not isnum(v) or sc % w: raise Unsupported("unknown address computation at %s" % E.loc(ins))
                p = ladd(p, num(v), sc // w)
            return SIt(b.loc, p)
        return TOP

    def width(self, st, loc):
        if loc[0] == "bank": return 8
        q = getseq(st, loc)
        return 4 if q is not None and "Tag" in q.et else 8

    def load_unknown(self, E, st, p, size, ins): return TOP
    def store_unknown(self, E, st, p, val, size, ins):
        raise Unsupported("store to an unknown address (%r) at %s" % (p, E.loc(ins)))
    def load_undef(self, E, st, p, size, ins): return TOP

    def on_delete(self, E, st, p, ins):
        m = st.mon
        if isinstance(p, Ptr) and p == m.get("next"):
            self.sync_next(E, st, ins, "the tuple of a bank is deleted")
            m.update(next=None, bs=0, be=0, bv=0, bt=0, ds=CInt(0), de=CInt(0), dv=CInt(0), tp=None, bankptr=None)
        elif isinstance(p, Ptr) and p == m.get("tup") and self.stage == 3 :
            m["basegone"] = 1
        elif isinstance(p, Ptr) and p == m.get("tup") and self.stage == 2 and m["own"]:
            raise Violation("the stack of the bank is deleted before stage 3 gets it", st, E.loc(ins), "handover")

    def extern(self, E, st, f, a, ins):
        if f.name in ("sem_wait", "sem_post"): return ("val", 0)
        return None

    # ---- ghost stack -----------------------------------------------------------------
    def encode(self, st):
        """expected contents of the four vectors"""
        S = st.mon["S"]; b = dict(st.mon["base"])
        tags = []; starts = []; ends = []; vals = []; t = b["values"]
        for it in S:
            if it[0] == "S": tags.append(-1); starts.append(it[1])
            elif it[0] == "E": tags.append(0); ends.append(it[1])
            else:
                n = 0
                for c, l in it[1]: n = ladd(n, c); vals.append((c, l))
                tags.append(n)
        return tags, starts, ends, vals

    def locs(self, E, st, ins):
        """where the four vectors are"""
        m = st.mon
        if m.get("locs"): return dict(m["locs"])
        mk = []; vs = []; tg = []
        for oid, o in st.mem.items():
            if o.tag == "freed" or o.tag == "elem": continue
            for off, (s, v) in o.cells.items():
                if isinstance(v, Seq):
                    if "CSTMarker" in v.et: mk.append((oid, off))
                    elif "Tag" in v.et: tg.append((oid, off))
                    elif v.et in ("unsigned long", "unsigned long long"): vs.append((oid, off))
        if len(mk) != 2 or len(vs) != 1 or len(tg) != 1: raise Unsupported("the stacks of stage %d are not recognised at %s (%d marker lists, %d value lists, %d tag lists)" % (self.stage, E.loc(ins), len(mk), len(vs), len(tg)))
        mk.sort(reverse=True)
        if self.swap: mk.reverse()
        d = {"starts": mk[0], "ends": mk[1], "values": vs[0], "tags": tg[0]}
        m["locs"] = tuple(sorted((k, Ptr(*v)) for k, v in d.items())); m["tup"] = Ptr(tg[0][0], 0)
        if len({l[0] for l in d.values()}) == 1: self.layout = {k: v[1] for k, v in d.items()}
        return d

    def check(self, E, st, ins, when):
        """the vectors encode the ghost stack"""
        m = st.mon; L = self.locs(E, st, ins); b = dict(m["base"]); S = m["S"]
        if m["exp"] is not None: raise Violation("%s, but the listener was not called for the end marker before it" % when, st, E.loc(ins), "listener-missing")
        tags, starts, ends, vals = self.encode(st)
        for n, want in (("tags", tags), ("starts", starts), ("ends", ends)):
            q = getseq(st, L[n]); items = list(q.items)
            if b[n] != 0:
                if not items or items[0][0] != "G" or items[0][1] != b[n]: raise Violation("%s, but the %s below the top were changed" % (when, n), st, E.loc(ins), "stack-" + n)
                items = items[1:]
            got = []
            for i in items:
                if i[0] != "E": got.append("?"); continue
                v = E.load(st, Ptr(i[1], 0), 4 if n == "tags" else 8, ins)
                if n == "tags" and isinstance(v, int): v = signed(v, 32)
                got.append(v)
            if len(got) != len(want) or any(x != y for x, y in zip(got, want)):
                raise Violation("%s with the stack [%s], but the list of %s holds %s instead of %s" % (when, self.show(S), n, got, want), st, E.loc(ins), "stack-" + n)
        q = getseq(st, L["values"]); got = []
        for i in q.items:
            l = self.label(E, st, i)
            if got and got[-1][1] == l: got[-1] = (ladd(got[-1][0], 1 if i[0] == "E" else i[1]), l)
            else: got.append((1 if i[0] == "E" else i[1], l))
        want = [(b["values"], "base")] if b["values"] != 0 else []
        for c, l in vals:
            if want and want[-1][1] == l: want[-1] = (ladd(want[-1][0], c), l)
            else: want.append((c, l))
        if self.py:
            return self.check_py(E, st, ins, when, q)
        if got != want: raise Violation("%s with the stack [%s], but the list of values is %s instead of %s" % (when, self.show(S), got, want), st, E.loc(ins), "stack-values")
        self.steps += 1

    def normalise(self, E, st):
        """adjacent values of one name are one run, so that its length stays related to the counts of the tag"""
        m = st.mon
        if self.py or not m.get("locs") or m.get("next") is None or m["tcur"] is None or m["tcur"][0] != "V": return
        loc = dict(m["locs"])["values"]; q = getseq(st, loc); out = []
        if q is None: return
        for i in q.items:
            l = self.label(E, st, i); c = 1 if i[0] == "E" else i[1]
            if out and out[-1][1] == l: out[-1] = (ladd(out[-1][0], c), l)
            else: out.append((c, l))
        if all(isinstance(l, str) for c, l in out):
            setseq(st, loc, Seq(q.et, tuple(("G", c, frozenset((("gen", l),))) for c, l in out)))

    def label(self, E, st, i):
        if i[0] == "E":
            v = E.load(st, Ptr(i[1], 0), 8, {})
            return v.n if isinstance(v, Tok) else repr(v)
        ls = set()
        for f in i[2]:
            if f[0] == "gen": ls.add(f[1]); continue
            for a, s, v in f[1]: ls.add(v.n if isinstance(v, Tok) else repr(v))
        return ls.pop() if len(ls) == 1 else tuple(sorted(ls))

    def show(self, S):
        return " ".join({"S": "start", "E": "end", "V": "values"}[i[0]] for i in S) or "-"

    # shapes: explicit top items, below = something opaque underneath
    def shapelist(self, stage):
        def ok(s):
            for x, y in zip(s, s[1:]):
                if x == "V" and y == "V": return False
                if x == "S" and y == "E": return False
            if "S" in s:
                k = s.index("S")
                if "E" in s[k:]: return False
            return True
        import itertools
        out = []
        al = "SVE" if stage == 2 else "SV"
        for n in (0, 1, 2, 3):
            for s in itertools.product(al, repeat=n):
                if ok(s):
                    out.append((s, False))
                    if n == 3: out.append((s, True))
        return out

    def havoc(self, E, st, shape, below, ins=None):
        """make the stack arbitrary of the given shape"""
        m = st.mon; L = dict(m["locs"])
        S = []; b = dict(tags=0, starts=0, ends=0, values=0)
        if below == "any":
            b = {n: var(st) for n in b if n != "ends" or self.stage == 2}; b.setdefault("ends", 0)
        elif below:
            b["tags"] = ladd(var(st), 1); b["values"] = var(st)
            if "E" not in shape: b["starts"] = var(st)
            if self.stage == 2: b["ends"] = var(st)
        tot = b["values"]; marks = []
        for k, x in enumerate(shape):
            if x in "SE": S.append((x, marker(1 if x == "S" else 0, "id%d" % k, "off%d" % k)))
            else:
                n = ladd(var(st), 1)
                S.append(("V", ((n, "run%d" % k),)))
                marks.append(tot); tot = ladd(tot, n); marks.append(tot)
        m["S"] = tuple(S); m["base"] = tuple(sorted(b.items())); m["marks"] = tuple(marks); m["exp"] = None
        def gap(n, label): return (("G", n, frozenset((("gen", label),))),) if n != 0 else ()
        def el(v, size):
            o = st.new(None, "pin"); st.mem[o].cells[0] = (size, v); return ("E", o)
        tags, starts, ends, vals = self.encode(st)
        ets = {n: getseq(st, L[n]).et for n in L}
        setseq(st, L["tags"], Seq(ets["tags"], gap(b["tags"], "base") + tuple(el(t & 0xffffffff if isinstance(t, int) else t, 4) for t in tags)))
        setseq(st, L["starts"], Seq(ets["starts"], gap(b["starts"], "base") + tuple(el(t, 8) for t in starts)))
        setseq(st, L["ends"], Seq(ets["ends"], gap(b["ends"], "base") + tuple(el(t, 8) for t in ends)))
        if not self.py:
            setseq(st, L["values"], Seq(ets["values"], gap(b["values"], "base") + tuple(x for c, l in vals for x in gap(c, l))))

    def generate(self, E, st, oid, form):
        raise Unsupported("something below the top of the stack is read")

    def pushed(self, E, st, p, oid, ins):
        q = getseq(st, p)
        if q is not None and ("CSTMarker" in q.et or "Tag" in q.et): st.wobj(oid).tag = "pin"

    def push(self, st, it):
        m = st.mon
        S = m["S"]
        if it[0] == "V" and S and S[-1][0] == "V":
            m["S"] = S[:-1] + (("V", S[-1][1] + it[1]),)
        else: m["S"] = S + (it,)
        # keep the borders between differently named values visible
        t = dict(m["base"])["values"]; marks = []
        for i in m["S"]:
            if i[0] == "V":
                for c, l in i[1]: marks.append(t); t = ladd(t, c)
        m["marks"] = tuple(marks)

    def spec_start(self, st, mk): self.push(st, ("S", mk))

    def spec_end(self, st, mk):
        """an end marker that closes the innermost open start"""
        st.mon["exp"] = mk; st.mon["cnt0"] = st.mon["cnt"]

    def ends_of(self, S):
        """innermost open start among the explicit items"""
        for k in range(len(S) - 1, -1, -1):
            if S[k][0] == "S": return k
        return None

    def listener(self, E, st, a, ins):
        m = st.mon; self.calls += 1; L = dict(m["locs"] or ())
        if m["exp"] is None: raise Violation("the listener is called although no end marker was read since the last call", st, E.loc(ins), "listener-extra")
        mk = m["exp"]; S = m["S"]; k = self.ends_of(S)
        if k is None or len(a) < 4: raise Unsupported("listener call at %s" % E.loc(ins))
        start = S[k][1]; above = S[k + 1:]
        sm = members(self.mod, "Centaurus::SymbolEntry")
        def fld(n):
            o, kd = sm[n]
            v = E.load(st, Ptr(a[0].obj, a[0].off + o), kd[2], ins) if isinstance(a[0], Ptr) else None
            if isinstance(v, BV): return (v.bits + (0,) * 64)[:64]
            return v
        want = {"id": mk.bits[48:63] + (0,) * 49, "start": start.bits[:48] + (0,) * 16, "end": mk.bits[:48] + (0,) * 16}
        for n, w in want.items():
            if n not in sm: raise Unsupported("symbol entry without %s" % n)
            g = fld(n)
            if g != w: raise Violation("the listener gets %r as %s of the symbol instead of %r" % (BV(g) if isinstance(g, tuple) else g, n, BV(w)), st, E.loc(ins), "symbol-" + n)
        n = 0
        for i in above:
            for c, l in i[1]: n = ladd(n, c)
        if (isnum(a[2]) and num32(a[2]) != n) or not isnum(a[2]): raise Violation("the listener is told of %r values instead of %r" % (a[2], n), st, E.loc(ins), "value-count")
        if a[3] != Tok("ctx"): raise Violation("the listener does not get its context", st, E.loc(ins), "context")
        if self.py: self.listener_py(E, st, a, n, ins)
        elif n != 0:
            t = dict(m["base"])["values"]
            for i in S[:k]:
                if i[0] == "V":
                    for c, l in i[1]: t = ladd(t, c)
            if not isinstance(a[1], SIt) or a[1].loc != L["values"] or a[1].pos != t: raise Violation("the listener gets the values at %r, they start at position %r" % (a[1], t), st, E.loc(ins), "value-pointer")
        m["S"] = S[:k]; m["exp"] = None; m["calls"] = m["calls"] + 1
        s2 = st.fork()
        self.push(s2, ("V", ((1, "result"),)))
        return ("alts", [(st, ("val", 0)), (s2, ("val", Tok("result")))])

    def indirect(self, E, st, fr, p, a, ins):
        if p == Tok("listener"): return self.listener(E, st, a, ins)
        if p == Tok("xfer"): return ("val", None)
        return None

    def count_check(self, E, st, ins):
        m = st.mon
        if m["counter"] and m["cnt"] != m["calls"]: raise Violation("the reduction counter was raised %r times for %r calls of the listener" % (m["cnt"], m["calls"]), st, E.loc(ins), "counter")
        m["cnt"] = 0; m["calls"] = 0

    # ---- stage 2: reading the bank ----------------------------------------------------------
    def read_marker(self, E, st, pos, ins):
        """-> list of (state, value)"""
        m = st.mon
        if not m["own"]: raise Violation("a bank is read that the worker does not hold", st, E.loc(ins), "hold")
        if m["cur"] is not None and pos == ladd(m["pos"], -1): return [(st, m["cur"])]
        if pos != m["pos"] : raise Violation("word %r of the bank is read, the next one is word %r" % (pos, m["pos"]), st, E.loc(ins), "marker-order")
        if m["zero"]: raise Violation("reading goes on after the zero word that ends the bank", st, E.loc(ins), "marker-end")
        r, sts = decide(E, st, lsub(m["W"], pos), lambda s: s > 0)
        if r == "split" or not r: raise Violation("a word past the end of the bank may be read (word %r)" % pos, st, E.loc(ins), "marker-bound")
        if not m["ready"]:
            self.check(E, st, ins, "the next marker is read")
            self.count_check(E, st, ins)
            self.havoc(E, st, (), "any"); m["cur"] = None; m["ready"] = 1
            d = lsub(m["W"], pos); m["facts"] = frozenset(((d, frozenset((1,))),)) if isinstance(d, Lin) and d.vs[0][1] > 0 else frozenset(((ladd(0, d, -1), frozenset((-1,))),))
            return None
        m["ready"] = 0
        g = m["ghost"]; sq = getseq(st, g)
        setseq(st, g, Seq(sq.et, sq.items + (("G", 1, frozenset((("gen", "past"),))),)))
        m["pos"] = ladd(pos, 1)
        out = []
        for shape, below in self.shapelist(2):
            for kind in "0SE":
                s = st.fork()
                self.havoc(E, s, shape, below)
                k = self.ends_of(s.mon["S"])
                if kind == "0":
                    if shape != () and (shape, below) != (("S",), False): continue
                    s.mon["cur"] = 0; s.mon["zero"] = 1; v = 0
                elif kind == "S":
                    v = marker(1, "idc", "offc"); s.mon["cur"] = v; self.spec_start(s, v)
                elif k is not None:
                    o = s.mon["S"][k][1]
                    v = BV(field("offc", 48) + o.bits[48:63] + (0,)); s.mon["cur"] = v; self.spec_end(s, v)
                else:
                    v = marker(0, "idc", "offc"); s.mon["cur"] = v; self.push(s, ("E", v))
                self.shapes.add((shape, below, kind))
                out.append((s, v))
        return out

    def finish_bank(self, E, st, v, ins):
        """stage 2 writes the first word of the bank"""
        m = st.mon
        if not m["own"]: raise Violation("a bank is written that the worker does not hold", st, E.loc(ins), "hold")
        p = m["pos"]
        if not m["zero"]:
            r, sts = decide(E, st, lsub(m["W"], p), lambda s: s > 0)
            if p != m["W"] and (r == "split" or r): raise Violation("the bank is given away after %r words although neither its end nor a zero word was reached" % p, st, E.loc(ins), "marker-missed")
        self.check(E, st, ins, "the bank is handed over")
        self.count_check(E, st, ins)
        if not isinstance(v, Ptr) or v != m["tup"]: raise Violation("the first word of the bank does not point to the stacks (%r)" % (v,), st, E.loc(ins), "handover")
        m["given"] = 1; m["cur"] = None

    # ---- bank states -------------------------------------------------------------------------
    def acquired(self, E, st, ins):
        m = st.mon
        m["own"] = 1; self.banks += 1
        # counts of banks grow without end; nothing here depends on them
        for a, (z, v) in list(st.mem[m["this"].obj].cells.items()):
            if isinstance(v, Lin) and a != self.mem["m_bank_size"][0] or isinstance(v, CInt) and v >= 2: st.wobj(m["this"].obj).cells[a] = (z, TOP)
        if self.stage == 2:
            m.update(ready=0, pos=CInt(0), W=tok("words"), cur=None, zero=0, given=0, locs=None, tup=None, S=(), exp=None, base=tuple(sorted(dict(tags=0, starts=0, ends=0, values=0).items())), marks=(), facts=frozenset())
            for oid in [o for o, x in st.mem.items() if isinstance(o, int) and (x.tag == "heap" or x.tag == "freed")]: del st.mem[oid]
            setseq(st, m["ghost"], Seq("word"))
            t = st.wobj(m["this"].obj); t.cells[self.mem["m_bank_size"][0]] = (8, ladd(0, tok("words"), 8))
            return [st]
        # stage 3
        if m["first"]:
            m["first"] = 0
            o = st.new(self.tsize, "heap")
            self.mktuple(st, o)
            m["tup"] = Ptr(o, 0); m["locs"] = tuple(sorted((n, Ptr(o, off)) for n, off in self.layout.items())); m["bankptr"] = Ptr(o, 0)
            self.neutral(E, st)
            return [st]
        self.sync_next(E, st, ins, "the next bank is taken")
        if m["next"] is not None: raise Violation("the tuple of the bank before is never deleted", st, E.loc(ins), "leak")
        o = st.new(self.tsize, "heap")
        self.mktuple(st, o)
        st.mon["next"] = Ptr(o, 0); st.mon["bankptr"] = Ptr(o, 0); m["ds"] = CInt(0); m["de"] = CInt(0); m["dv"] = CInt(0); m["tp"] = SIt((o, self.layout["tags"]), CInt(0)); m["tcur"] = None; m["bs"] = m["be"] = m["bv"] = m["bt"] = 0
        rest = var(st)
        off = self.layout
        for n, et in (("starts", "Centaurus::CSTMarker"), ("ends", "Centaurus::CSTMarker"), ("values", "unsigned long")):
            setseq(st, (o, off[n]), Seq(et, (("G", tok("N" + n), frozenset((("gen", n),))),)))
        setseq(st, (o, off["tags"]), Seq("Centaurus::detail::StackEntryTag", (("G", rest, frozenset((("gen", "tag"),))),)))
        setseq(st, m["ghost"], Seq("word"))
        return [st]

    def mktuple(self, st, o):
        for n, et in (("starts", "Centaurus::CSTMarker"), ("ends", "Centaurus::CSTMarker"), ("values", "unsigned long"), ("tags", "Centaurus::detail::StackEntryTag")):
            st.mem[o].cells[self.layout[n]] = (24, Seq(et))

    def sync_next(self, E, st, ins, when):
        m = st.mon
        if m["next"] is None: return
        if m["tcur"] is not None: self.settle(E, st, ins, when)
        rest = self.rest(st)
        r, sts = decide(E, st, rest, lambda s: s > 0)
        if rest != 0 and (r == "split" or r): raise Violation("%s although some of its tags may not have been read" % when, st, E.loc(ins), "tag-missed")
        if m["tcur"] is None: self.check(E, st, ins, when); self.count_check(E, st, ins)
        self.neutral(E, st); m["tcur"] = None

    def neutral(self, E, st):
        m = st.mon
        self.havoc(E, st, (), "any"); m.update(tcur=None, mk=None, vobj=None, mobj=None, tobj=None, under=0, border=0, facts=frozenset())

    def settle(self, E, st, ins, when):
        """the obligations of the tag read last"""
        m = st.mon; t = m["tcur"]
        self.check(E, st, ins, when)
        self.count_check(E, st, ins)
        n = m["dv"]
        for what, d, w in (("start markers", m["ds"], 1 if t[0] == "S" else 0), ("end markers", m["de"], 1 if t[0] == "E" else 0), ("values", n, t[1] if t[0] == "V" else 0)):
            if d != w: raise Violation("%s: %r %s were taken for one tag instead of %r" % (when, d, what, w), st, E.loc(ins), "tag-count")

    def rebase(self, st, loc):
        """positions in the other lists count from here"""
        m = st.mon
        o = m["next"].obj; offs = self.layout
        n = m["dv"]
        if self.absolute:
            for b, w, d in (("bs", "starts", m["ds"]), ("be", "ends", m["de"]), ("bv", "values", n)):
                x = ladd(self.at_base(m, b), d); l = (o, offs[w]); m[b] = SIt(l, x)
                setseq(st, l, Seq(getseq(st, l).et, tuple(("G", c, frozenset((("gen", w),))) for c in (x, tok("N" + w)) if c != 0)))
            setseq(st, m["ghost"], Seq("word"))
            m["ds"] = CInt(0); m["de"] = CInt(0); m["dv"] = CInt(0)
            return
        delta = {}
        # the positions stay apart from those already behind: an unknown count comes before them
        if m["tcur"] is not None:
            for b, w, d in (("bs", "starts", m["ds"]), ("be", "ends", m["de"]), ("bv", "values", n), ("bt", "tags", CInt(1))):
                if m[b] == 0:
                    m[b] = tok("past " + w); delta[o, offs[w]] = lsub(d, m[b])
                elif d != 0: delta[o, offs[w]] = d
        def fn(x): return x
        fn.gaps = False
        fn.byloc = lambda l, x: ladd(x, delta[l], -1) if l in delta else x
        mapstate(st, fn)
        setseq(st, m["ghost"], Seq("word"))
        m["ds"] = CInt(0); m["de"] = CInt(0); m["dv"] = CInt(0)

    def at_base(self, m, b): return m[b].pos if isinstance(m[b], SIt) else m[b]

    def rest(self, st):
        m = st.mon
        return lsub(getseq(st, (m["next"].obj, self.layout["tags"])).total(), m["tp"].pos)

    def runs(self, st, k, rest):
        """keeps the counts of a run of values related: taken, left, and the run they are appended to"""
        m = st.mon; f = frozenset((("gen", "past"),)); g = m["ghost"]
        m["border"] = ladd(m["under"], k)
        def it(*ns): return tuple(("G", n, f) for n in ns if n != 0)
        setseq(st, g, Seq("word", it(k, rest)))
        nv = (m["next"].obj, self.layout["values"])
        setseq(st, nv, Seq(getseq(st, nv).et, it(self.at_base(m, "bv"), k, rest, tok("Nvalues"))))
        st.wobj(g.obj).cells[24] = (24, Seq("word", it(m["under"], k, rest)))

    def read_tag(self, E, st, loc, pos, ins):
        m = st.mon
        if m["tcur"] is not None and pos == ladd(m["tp"].pos, -1): return [(st, m["tobj"].obj)]
        if pos != m["tp"].pos: raise Violation("tag %r of the bank is read, the next one is tag %r" % (pos, m["tp"].pos), st, E.loc(ins), "tag-order")
        if not nonneg(ladd(self.rest(st), -1)):
            raise Violation("a tag past the end of the list may be read", st, E.loc(ins), "tag-bound")
        if not m["ready"]:
            if m["tcur"] is not None: self.settle(E, st, ins, "the next tag is read")
            else: self.check(E, st, ins, "the first tag is read")
            rest = self.rest(st)
            self.rebase(st, loc)
            sq = getseq(st, loc); f = frozenset((("gen", "tag"),))
            setseq(st, loc, Seq(sq.et, tuple(("G", n, f) for n in (m["tp"].pos, rest) if n != 0)))
            self.neutral(E, st); m["ready"] = 1
            return None
        m["ready"] = 0
        tp = m["tp"].pos; rest = ladd(self.rest(st), -1)
        m["tp"] = SIt(loc, ladd(tp, 1))
        sq = getseq(st, loc); f = frozenset((("gen", "tag"),))
        def it(n): return (("G", n, f),) if n != 0 else ()
        cur = lambda s, e: setseq(s, loc, Seq(sq.et, it(tp) + (("E", e),) + it(rest)))
        out = []; cno = 0
        for shape, below in self.shapelist(3):
            for kind in "SEV":
                if not shape and kind != "S": continue       # a complete document is followed by nothing; a value or an end needs an open rule
                if shape == ("V",) and not below and kind != "S": continue
                cno += 1
                if cno % self.part[1] != self.part[0] and (shape, below, kind) not in DRIVE: continue
                s = st.fork()
                self.havoc(E, s, shape, below)
                e = s.new(None, "pin"); s.mon["tobj"] = Ptr(e, 0); cur(s, e)
                if kind == "S":
                    s.mem[e].cells[0] = (4, 0xffffffff); s.mon["tcur"] = ("S",)
                    mk = marker(1, "idc", "offc"); s.mon["mk"] = mk; self.spec_start(s, mk)
                elif kind == "E":
                    k = self.ends_of(s.mon["S"])
                    if k is None: continue
                    s.mem[e].cells[0] = (4, 0); s.mon["tcur"] = ("E",)
                    mk = BV(field("offc", 48) + s.mon["S"][k][1].bits[48:63] + (0,)); s.mon["mk"] = mk; self.spec_end(s, mk)
                else:
                    v = ladd(var(s), 1)
                    s.mem[e].cells[0] = (4, v); s.mon["tcur"] = ("V", v); s.mon["mk"] = None
                    S0 = s.mon["S"]; s.mon["under"] = S0[-1][1][0][0] if S0 and S0[-1][0] == "V" else 0
                    self.push(s, ("V", ((v, "next"),)))
                    self.runs(s, CInt(0), v)
                self.shapes.add((shape, below, kind))
                out.append((s, e))
        return out

    def stream(self, E, st, p, pos, ins, what, wr):
        """reads of the lists of the next bank, and of element addresses of the value list"""
        m = st.mon; loc = (p.obj, p.off); o = m.get("next")
        L = dict(m["locs"] or ())
        if loc == L.get("values") and what == "operator[]" and not self.py: return ("val", SIt(loc, pos))
        if o is None or loc[0] != o.obj: return None
        offs = self.layout
        if loc[1] == offs["tags"]:
            r = self.read_tag(E, st, loc, pos, ins)
            if r is None: return again([st])
            return ("alts", [(s, ("val", Ptr(e, 0))) for s, e in r])
        which = [n for n in offs if offs[n] == loc[1]][0]
        t = m["tcur"]
        if t is None: raise Violation("the %s of a bank are read before its first tag" % which, st, E.loc(ins), "tag-order")
        if which == "values":
            n = m["dv"]; b = self.at_base(m, "bv")
            if pos == ladd(b, ladd(n, -1)) and m.get("vobj"): return ("val", m["vobj"])
            if pos != ladd(b, n): raise Violation("value %r of the bank is read, the next one is value %r" % (pos, ladd(b, n)), st, E.loc(ins), "value-order")
            rest = ladd(lsub(t[1] if t[0] == "V" else 0, n), -1)
            if not nonneg(rest): raise Violation("more values are taken for a tag than it announces", st, E.loc(ins), "tag-count")
            f = frozenset((("gen", "past"),)); m["dv"] = ladd(n, 1)
            self.runs(st, m["dv"], rest)
            e = st.new(None, "pin"); st.mem[e].cells[0] = (8, Tok("next")); m["vobj"] = Ptr(e, 0)
            return ("val", Ptr(e, 0))
        d = m["ds" if which == "starts" else "de"]
        want = "S" if which == "starts" else "E"; b = self.at_base(m, "bs" if which == "starts" else "be")
        if d == 1 and pos == b and t[0] == want: return ("val", m["mobj"])
        if d != 0 or pos != b or t[0] != want: raise Violation("%s marker %r is read for a tag that says %s" % (which, pos, {"S": "start", "E": "end", "V": "values"}[t[0]]), st, E.loc(ins), "tag-kind")
        m["ds" if which == "starts" else "de"] = CInt(1)
        e = st.new(None, "pin"); st.mem[e].cells[0] = (8, m["mk"]); m["mobj"] = Ptr(e, 0)
        return ("val", Ptr(e, 0))

    def stream_range(self, E, st, first, last, ins):
        """a run of values of the next bank copied in one go"""
        m = st.mon; o = m.get("next")
        if o is None or first.loc != (o.obj, self.layout["values"]): return None
        t = m["tcur"]
        if t is None or t[0] != "V": raise Violation("values of a bank are read for a tag that announces none", st, E.loc(ins), "tag-kind")
        n = m["dv"]; b = self.at_base(m, "bv"); c = lsub(last.pos, first.pos)
        if first.pos != ladd(b, n): raise Violation("value %r of the bank is read, the next one is value %r" % (first.pos, ladd(b, n)), st, E.loc(ins), "value-order")
        rest = lsub(lsub(t[1], n), c)
        if not nonneg(c) or not nonneg(rest): raise Violation("more values are taken for a tag than it announces", st, E.loc(ins), "tag-count")
        m["dv"] = ladd(n, c); self.runs(st, m["dv"], rest)
        return (("G", c, frozenset((("gen", "next"),))),) if c != 0 else ()

    def finished(self, E, st, ins):
        m = st.mon
        if self.stage == 3:
            self.sync_next(E, st, ins, "the worker ends")
            if m["next"] is not None: raise Violation("the tuple of the last bank is never deleted", st, E.loc(ins), "leak")
            if not m["basegone"]: raise Violation("the first tuple is never deleted", st, E.loc(ins), "leak")

    def done(self, E, st, ins):
        """the end of the session is seen"""
        m = st.mon; m["seen"] = 1
        if self.stage == 2 or m.get("tup") is None: return [st]
        self.sync_next(E, st, ins, "the end of the session is seen")
        out = []
        for shape in ((), ("V",)):
            s = st.fork()
            self.havoc(E, s, shape, False)
            if shape:      # the value of the root rule
                s.mon["S"] = (("V", ((1, "run0"),)),)
                L = dict(s.mon["locs"])
                q = getseq(s, L["values"]); e = s.new(None, "pin"); s.mem[e].cells[0] = (8, Tok("run0"))
                setseq(s, L["values"], Seq(q.et, (("E", e),)))
                t = getseq(s, L["tags"]); s.wobj(t.items[0][1]).cells[0] = (4, 1)
            out.append(s)
        return out


def num32(x): return x if isinstance(x, Lin) else CInt(signed(x, 32))


class RedEngine(SeqEngine):
    def bank_field(self, p):
        if isinstance(p, Ptr) and p.obj == self.table and isinstance(p.off, int):
            o = p.off
            if o == self.dom.fstate: return "state"
            if o == self.dom.fnum: return "number"
            raise Unsupported("a bank outside the table")
        return None

    def outs(self, st, ins, alts):
        res = []
        for s, v in alts:
            s.frames[-1].regs[ins["id"]] = v
            res.append((s, "next", None))
        return ("forks", res)

    def x_load(self, st, fr, ins, basen):
        p = self.val(st, fr, ins["ops"][0]); d = self.dom
        f = self.bank_field(p)
        if f == "number":
            fr.regs[ins["id"]] = Tok("*number"); return None
        if f == "state":
            S = d.S; res = []
            if st.mon["own"]:
                fr.regs[ins["id"]] = S["Stage%d_Locked" % d.stage]; return None
            if st.mon["seen"]:
                fr.regs[ins["id"]] = S["YouAreDone"]; return None
            s2 = st.fork()
            res = [(st, S["Stage%d_Unlocked" % (d.stage - 1)])]
            if not st.mon["first"] or d.stage == 2: res += [(s, S["YouAreDone"]) for s in d.done(self, s2, ins)]
            return self.outs(st, ins, res)
        if isinstance(p, SIt):
            if p.loc == ("bank", 0):
                if d.stage == 2 and not d.reading_tuple(st):
                    r = d.read_marker(self, st, num(p.pos), ins)
                    if r is None: return ("forks", [(st, "again", None)])
                    return self.outs(st, ins, r)
                if d.stage == 3:
                    if not st.mon["own"]: raise Violation("a bank is read that the worker does not hold", st, self.loc(ins), "hold")
                    if p.pos != 0: raise Violation("stage 3 reads word %r of the bank, the pointer is in word 0" % p.pos, st, self.loc(ins), "handover")
                    fr.regs[ins["id"]] = st.mon["bankptr"]; return None
                raise Unsupported("read of the bank at %s" % self.loc(ins))
            r = at(self, st, Ptr(*p.loc), p.pos, ins, "load", lambda s, oid: self.load(s, Ptr(oid, 0), ins["size"], ins))
            if r[0] == "val": fr.regs[ins["id"]] = r[1] if not isinstance(r[1], Ptr) or True else None; return None
            return self.apply_result(st, fr, ins, r, basen)
        return Engine.x_load(self, st, fr, ins, basen)

    def x_store(self, st, fr, ins, basen):
        v = self.val(st, fr, ins["ops"][0]); p = self.val(st, fr, ins["ops"][1]); d = self.dom
        f = self.bank_field(p)
        if f: return self.setstate(st, ins, f, v, None)
        if isinstance(p, SIt):
            if p.loc == ("bank", 0):
                if d.stage == 2 and p.pos == 0 and ins["ssize"] == 8:
                    d.finish_bank(self, st, v, ins); return None
                raise Violation("stage %d writes word %r of the bank" % (d.stage, p.pos), st, self.loc(ins), "handover")
            r = at(self, st, Ptr(*p.loc), p.pos, ins, "store")
            if r[0] == "val": self.store(st, r[1], v, ins["ssize"], ins); return None
            if r[0] == "alts" and all(x[1][0] == "again" for x in r[1]): return self.apply_result(st, fr, ins, r, basen)
            raise Unsupported("store through %r" % (p,))
        return Engine.x_store(self, st, fr, ins, basen)

    def setstate(self, st, ins, f, v, reg):
        d = self.dom; m = st.mon
        if f != "state": raise Unsupported("write of a bank number")
        res = []
        if m["own"]:
            if d.stage == 2:
                if not m["given"]: raise Violation("the bank is released before its stacks are handed over", st, self.loc(ins), "handover")
            m["own"] = 0
            res = [st]
        else:
            res = d.acquired(self, st, ins)
        out = []
        for s in res:
            if reg: reg(s)
            out.append((s, "next", None))
        return ("forks", out)

    def x_cmpxchg(self, st, fr, ins, basen):
        p = self.val(st, fr, ins["ops"][0]); e = self.val(st, fr, ins["ops"][1]); n = self.val(st, fr, ins["ops"][2]); d = self.dom
        if self.bank_field(p) != "state": raise Unsupported("compare-exchange on something other than a bank state at %s" % self.loc(ins))
        sz = ins["csize"]; src = d.S["Stage%d_Unlocked" % (d.stage - 1)]; done = d.S["YouAreDone"]
        res = []
        s2 = st.fork()
        if st.mon["seen"]: pass
        elif e == src:
            def reg(s): s.frames[-1].regs[ins["id"]] = Agg(((0, sz, e), (sz, 1, 1)))
            res += self.setstate(st, ins, "state", n, reg)[1]
        else: raise Unsupported("compare-exchange with another expectation")
        if not s2.mon["first"] or d.stage == 2:
            for s in (d.done(self, s2, ins) if not s2.mon["seen"] else [s2]):
                s.frames[-1].regs[ins["id"]] = Agg(((0, sz, done), (sz, 1, 0)))
                res.append((s, "next", None))
        return ("forks", res)

    def x_atomicrmw(self, st, fr, ins, basen):
        p = self.val(st, fr, ins["ops"][0]); v = self.val(st, fr, ins["ops"][1])
        if isinstance(p, Ptr) and p == st.mon.get("cobj"):
            if ins["rmw"] != "add" or v != 1: raise Violation("the reduction counter is changed by something other than one", st, self.loc(ins), "counter")
            st.mon["cnt"] = st.mon["cnt"] + 1
            fr.regs[ins["id"]] = TOP; return None
        f = self.bank_field(p)
        if f == "state" and ins["rmw"] == "xchg":
            def reg(s): s.frames[-1].regs[ins["id"]] = TOP
            return self.setstate(st, ins, f, v, reg)
        raise Unsupported("atomic update at %s" % self.loc(ins))


def explore(mod, stage, swap=False, py=False, counter=True, layout=None, limit=200, absolute=False, part=(0, 1)):
    bodies = [f for f in mod.functions.values() if f.defined and f.src == "thread_runner_impl" and f.cls == "Centaurus::Stage%dRunner" % stage]
    if len(bodies) != 1: raise AnalysisBroken("worker body of stage %d: found %d" % (stage, len(bodies)))
    body = bodies[0]; cls = body.cls; mem = members(mod, cls)
    D = Dom(mod, stage, swap, py)
    D.absolute = absolute; D.part = part; D.mem = mem; D.S = mod.enums[B + "::WindowBankState"]
    ent = mod.types[B + "::WindowBankEntry"]; fo = {n: o for n, o, k in ent["members"]}
    D.fstate = fo["state"]; D.fnum = fo["number"]
    if layout: D.layout = layout; D.tsize = max(layout.values()) + 24
    D.reading_tuple = lambda st: False
    E = RedEngine(mod, D, max_states=400000, max_time=limit)
    st = State()
    t = st.new(mod.types[cls]["size"], "this"); c = st.mem[t].cells
    for n, (o, k) in mem.items():
        if k[0] in ("basic", "enum", "ptr"): c[o] = (k[2], TOP)
    def put(n, v): c[mem[n][0]] = (mem[n][1][2], v)
    E.table = st.new(ent["size"], "table")
    st.mem["bank"] = Obj(None, "bank", {0: (24, Seq("word"))})
    g = st.new(None, "ghost"); st.mem[g].cells[0] = (24, Seq("word"))
    co = st.new(4, "counter"); st.mem[co].cells[0] = (4, TOP)
    c[0] = (8, Ptr(("g", "@vt"), 0))
    put("m_sub_window", Ptr(E.table, 0)); put("m_main_window", SIt(("bank", 0), 0)); put("m_bank_num", 1)
    put("m_bank_size", ladd(0, tok("words"), 8)); put("m_listener", Tok("listener")); put("m_xferlistener", 0); put("m_listener_context", Tok("ctx"))
    put("reduction_counter", Ptr(co, 0) if counter else 0)
    st.mon = dict(own=0, pos=None, cur=None, zero=0, given=0, locs=None, tup=None, S=(), exp=None, base=tuple(sorted(dict(tags=0, starts=0, ends=0, values=0).items())), marks=(), ghost=Ptr("bank", 0) if stage == 2 else Ptr(g, 0), this=Ptr(t, 0),
                  cnt=0, calls=0, counter=1 if counter else 0, cobj=Ptr(co, 0), first=1, seen=0, ready=0, W=tok("words"), next=None, basegone=0, ds=CInt(0), de=CInt(0), dv=CInt(0), under=0, border=0, tp=None, bs=0, be=0, bv=0, bt=0, tcur=None, tobj=None, mk=None, vobj=None, mobj=None, bankptr=None, cnt0=0, called=0)
    E.start(st, body, [Ptr(t, 0)])
    rets = 0
    for kind, s, v in E.run([st]):
        if kind == "ret":
            rets += 1
            D.finished(E, s, body.blocks[0][0])
    D.rets = rets; D.nstates = E.nstates; D.body = body; D.nfun = len(E.covered)
    return D
