"""Automata under construction, held in memory exactly as the library holds them: states, transitions, labels as sets of letters.
The code is interpreted on small operands whose labels are letters of their own; characters of the text stay unknown."""
import re
from ir import AnalysisBroken
from engine import *
from engine import Ptr, AV, Agg, UNDEF, Violation, Unsupported, signed, icmp_int, Infeasible


class C(AV):
    """the i-th character of the text"""
    __slots__ = ("i",)
    def __init__(self, i): self.i = i
    def canon(self, ren): return self.i
    def __eq__(self, o): return isinstance(o, C) and o.i == self.i
    def __hash__(self): return hash(("C", self.i))
    def __repr__(self): return "char(%d)" % self.i


class Cls(AV):
    """a character class: a set of letters; empty is epsilon"""
    __slots__ = ("s",)
    def __init__(self, s=()): self.s = frozenset(s)
    def canon(self, ren): return tuple(sorted(self.s, key=repr))
    def __eq__(self, o): return isinstance(o, Cls) and o.s == self.s
    def __hash__(self): return hash(("Cls", self.s))
    def __repr__(self): return "{%s}" % ", ".join(map(str, sorted(self.s, key=repr)))


class AutoDomain(Domain):
    maxpos = 64

    def fact(self, st, i): return st.mon["facts"].get(i, frozenset())
    def learn(self, st, i, f):
        d = dict(st.mon["facts"]); d[i] = f; st.mon["facts"] = d

    def char_of(self, st, v):
        """known value of a character, or None"""
        f = self.fact(st, v.i)
        return f if isinstance(f, int) else None

    def icmp(self, E, st, pr, a, b, bits):
        if isinstance(b, C) and not isinstance(a, C): a, b = b, a
        if isinstance(a, C) and isinstance(b, int) and pr in ("eq", "ne"):
            x = signed(b, bits); f = self.fact(st, a.i)
            if isinstance(f, int): return [((f == x) == (pr == "eq"), None)]
            if x in f: return [(pr == "ne", None)]
            return [(pr == "eq", lambda s: self.learn(s, a.i, x)), (pr == "ne", lambda s: self.learn(s, a.i, f | {x}))]
        if isinstance(a, C) and isinstance(b, int):
            f = self.fact(st, a.i)
            if isinstance(f, int): return [(icmp_int(pr, f, b, bits), None)]
        if isinstance(a, C) and isinstance(b, C) and a == b: return [(pr in ("eq", "uge", "ule", "sge", "sle"), None)]
        return [(True, None), (False, None)]

    def switch(self, E, st, v, cases, bits):
        if not isinstance(v, C): return None
        f = self.fact(st, v.i)
        if isinstance(f, int):
            for c in cases:
                if signed(c, bits) == f: return [(c, None)]
            return [(None, None)]
        out = []; ne = set(f)
        for c in cases:
            x = signed(c, bits)
            if x not in f: out.append((c, lambda s, x=x: self.learn(s, v.i, x)))
            ne.add(x)
        out.append((None, lambda s: self.learn(s, v.i, frozenset(ne))))
        return out

    def cast(self, E, st, op, v, sb, db, ins):
        if isinstance(v, C): return v
        return TOP

    def key(self, st, ren):
        m = {k: v for k, v in st.mon.items() if k != "facts"}
        return (tuple(sorted(((k, canon_val(v, ren)) for k, v in m.items()), key=repr)),
                tuple(sorted(((k, tuple(sorted(v)) if isinstance(v, frozenset) else v) for k, v in st.mon["facts"].items()), key=repr)))

    def extern(self, E, st, f, a, ins):
        if f.dem.startswith("__glibcxx_assert") or f.name == "__assert_fail": return ("end", "abort")
        return None


# ---------------------------------------------------------------- handlers
def get_cls(st, p):
    c = st.mem[p.obj].cells.get(p.off)
    if not c or not isinstance(c[1], Cls): raise Unsupported("a character class that was never constructed")
    return c[1]


def set_cls(E, st, p, v):
    sz = E.clssize
    o = st.wobj(p.obj)
    E.clear_range(o, p.off, sz)
    o.cells[p.off] = (sz, v)


def param_list(dem):
    from reading import params
    return params(dem) or ()


def h_class(E, st, f, a, ins):
    d = f.dem; m = re.sub(r"\[abi:\w+\]", "", d)
    name = m.split("(")[0]
    tail = re.search(r"::(~?CharClass|operator[^\s(]*(?:\(\))?|\w+)$", re.sub(r"CharClass<[^<>]*>", "CharClass", name.split(" Centaurus::", 1)[-1] if " Centaurus::" in name else name))
    t = tail.group(1) if tail else ""
    ps = param_list(d)
    if t == "~CharClass": return ("val", None)
    if t == "CharClass":
        if not ps: set_cls(E, st, a[0], Cls())
        elif len(ps) == 1 and re.search(r"CharClass<.*>( const)?&&?$", ps[0]): set_cls(E, st, a[0], get_cls(st, a[1]))
        elif len(ps) == 1 and ps[0] in ("char", "unsigned char", "wchar_t", "signed char"):
            v = a[1]
            if isinstance(v, C):
                k = E.dom.char_of(st, v); v = ("char", v.i) if k is None else ("char", "=%d" % k)
            elif isinstance(v, int): v = ("char", "=%d" % signed(v, 32))
            else: raise Unsupported("a class of %r" % (v,))
            set_cls(E, st, a[0], Cls([v]))
        elif ps == ["Centaurus::Stream&"] or tuple(ps) == ("Centaurus::Stream&",):
            set_cls(E, st, a[0], Cls([("class", st.mon["cur"])])); eat(st, "class")
        else: raise Unsupported(d)
        return ("val", None)
    if t == "make_star": set_cls(E, st, a[0], Cls([("any",)])); return ("val", None)
    if t == "is_epsilon": return ("val", 0 if get_cls(st, a[0]).s else 1)
    if t == "operator|=": set_cls(E, st, a[0], Cls(get_cls(st, a[0]).s | get_cls(st, a[1]).s)); return ("val", a[0])
    if t == "operator=": set_cls(E, st, a[0], get_cls(st, a[1])); return ("val", a[0])
    if t == "operator|": set_cls(E, st, a[0], Cls(get_cls(st, a[1]).s | get_cls(st, a[2]).s)); return ("val", None)
    if t == "operator==": return ("val", 1 if get_cls(st, a[0]) == get_cls(st, a[1]) else 0)
    raise Unsupported("operation %s on a character class" % d)


def eat(st, what):
    """something longer than one character is consumed: gets a position of its own"""
    d = dict(st.mon["facts"]); d[st.mon["cur"]] = what; st.mon["facts"] = d
    st.mon["cur"] += 1


def h_get(E, st, f, a, ins):
    i = st.mon["cur"]; st.mon["cur"] = i + 1
    if i > E.dom.maxpos: raise Unsupported("the text read is too long")
    return ("val", C(i))


def h_peek(E, st, f, a, ins):
    n = a[1] if len(a) > 1 else 1
    if not isinstance(n, int): raise Unsupported("peek of an unknown distance")
    return ("val", C(st.mon["cur"] + n - 1))


def h_discard(E, st, f, a, ins):
    n = a[1] if len(a) > 1 else 1
    if not isinstance(n, int): raise Unsupported("discard of an unknown distance")
    st.mon["cur"] += n; return ("val", None)


def h_unexpected(E, st, f, a, ins): return ("throw", "unexpected")


HANDLERS = [(r"^Centaurus::CharClass<[^<>]*>::|^[^(]* Centaurus::CharClass<[^<>]*>::", h_class), (r"^Centaurus::Stream::get\(\)", h_get), (r"^Centaurus::Stream::peek\(", h_peek),
            (r"^Centaurus::Stream::discard\(", h_discard), (r"^Centaurus::Stream::unexpected\(", h_unexpected)]


class AutoEngine(Engine):
    def __init__(self, mod, dom, cls, extra=(), **kw):
        hs = [(re.compile(p) if isinstance(p, str) else p, h) for p, h in list(extra) + HANDLERS]
        Engine.__init__(self, mod, dom, hs, **kw)
        self.clssize = mod.types[cls]["size"]; self.uniq = 0; self.max_states = 10**9
    def key(self, st):        # the texts are short: states are never merged
        self.uniq += 1; return self.uniq


# ---------------------------------------------------------------- memory layout
def offset_of(mod, cls, want, off=0):
    """offset of the first member of cls (or a base) whose type matches"""
    t = mod.types[cls]
    for o, b in t.get("bases", []):
        r = offset_of(mod, b[1], want, off + o)
        if r is not None: return r
    for n, o, k in t["members"]:
        if want(n, k): return off + o
    return None


class Layout:
    """how NFA<T>, its states and transitions lie in memory"""
    def __init__(self, mod, T):
        self.mod = mod; self.T = T
        self.nfa = "Centaurus::NFA<%s>" % T; self.cc = "Centaurus::CharClass<%s>" % T; self.tr = "Centaurus::NFATransition<%s>" % T
        self.state = next((c for c in mod.types if re.match(r"Centaurus::NFABaseState<%s, ?int>$" % re.escape(T), c)), None)
        if self.state is None or self.nfa not in mod.types: raise AnalysisBroken("no layout of NFA<%s>" % T)
        isvec = lambda n, k: k[0] == "class" and k[1].startswith("std::vector<")
        self.o_states = offset_of(mod, self.nfa, isvec); self.o_trans = offset_of(mod, self.state, isvec)
        self.o_label = offset_of(mod, self.tr, lambda n, k: k[1] == self.cc)
        self.o_dest = offset_of(mod, self.tr, lambda n, k: n in ("m_dest", "dest", "m_to", "to") or "dest" in n)
        if None in (self.o_states, self.o_trans, self.o_label, self.o_dest): raise AnalysisBroken("layout of NFA<%s> not understood" % T)
        self.s_nfa = mod.types[self.nfa]["size"]; self.s_state = mod.types[self.state]["size"]; self.s_tr = mod.types[self.tr]["size"]; self.s_cc = mod.types[self.cc]["size"]

    def vec(self, st, p):
        cs = st.mem[p.obj].cells
        b, e = cs.get(p.off), cs.get(p.off + 8)
        if not b or b[1] in (0, None) or isinstance(b[1], int): return []
        if not (isinstance(b[1], Ptr) and isinstance(e[1], Ptr) and b[1].obj == e[1].obj): raise Unsupported("a vector in an unknown state")
        return b[1], e[1].off - b[1].off

    def read(self, st, p):
        """[[(letters, dest)]] per state"""
        out = []
        v = self.vec(st, Ptr(p.obj, p.off + self.o_states))
        if not v: return out
        base, n = v
        for k in range(n // self.s_state):
            trs = []
            w = self.vec(st, Ptr(base.obj, base.off + k * self.s_state + self.o_trans))
            if w:
                for j in range(w[1] // self.s_tr):
                    q = w[0].off + j * self.s_tr; cs = st.mem[w[0].obj].cells
                    lab = cs.get(q + self.o_label); d = cs.get(q + self.o_dest)
                    if not lab or not isinstance(lab[1], Cls) or not d or not isinstance(d[1], int): raise Unsupported("a transition in an unknown state")
                    trs.append((lab[1].s, signed(d[1], 32)))
            out.append(trs)
        return out

    def write(self, st, p, states):
        """puts an automaton at p, as the library would have built it"""
        n = len(states)
        so = st.new(n * self.s_state, "heap")
        for k, trs in enumerate(states):
            if not trs:
                st.mem[so].cells[k * self.s_state + self.o_trans] = (8, 0); st.mem[so].cells[k * self.s_state + self.o_trans + 8] = (8, 0); st.mem[so].cells[k * self.s_state + self.o_trans + 16] = (8, 0)
            else:
                to = st.new(len(trs) * self.s_tr, "heap")
                for j, (s, d) in enumerate(trs):
                    self.fill_tr(st, to, j * self.s_tr, s, d)
                for i, v in enumerate((Ptr(to, 0), Ptr(to, len(trs) * self.s_tr), Ptr(to, len(trs) * self.s_tr))):
                    st.mem[so].cells[k * self.s_state + self.o_trans + 8 * i] = (8, v)
            self.fill_rest(st, so, k * self.s_state, self.state, {self.o_trans})
        o = st.wobj(p.obj)
        for i, v in enumerate((Ptr(so, 0), Ptr(so, n * self.s_state), Ptr(so, n * self.s_state))):
            o.cells[p.off + self.o_states + 8 * i] = (8, v)

    def fill_tr(self, st, oid, off, s, d):
        cs = st.mem[oid].cells
        cs[off + self.o_label] = (self.s_cc, Cls(s)); cs[off + self.o_dest] = (4, d & 0xffffffff)
        self.fill_rest(st, oid, off, self.tr, {self.o_label, self.o_dest})

    def vtable(self, cls):
        n, a = re.match(r"Centaurus::(\w+)<([^>]*)>$", cls).groups()
        z = "_ZTVN9Centaurus%d%sI%sEE" % (len(n), n, "".join({"char": "c", "unsigned char": "h", "wchar_t": "w", "int": "i"}[x.strip()] for x in a.split(",")))
        return z if z in self.mod.globals else None

    def fill_rest(self, st, oid, off, cls, skip):
        """plain members that do not matter: zero"""
        z = self.vtable(cls)
        if z: st.mem[oid].cells[off] = (8, Ptr(("g", z), 16))
        for n, o, k in self.mod.types[cls]["members"]:
            if o in skip or k[0] not in ("basic", "enum", "ptr"): continue
            st.mem[oid].cells.setdefault(off + o, (k[2], 0))


# ---------------------------------------------------------------- languages
def nfa_of(states):
    """(edges {state: [(letter or None, dest)]})"""
    E = {}
    for i, trs in enumerate(states):
        for s, d in trs:
            if not 0 <= d < len(states): return None, "a transition of state %d leads to state %d of %d" % (i, d, len(states))
            if not s: E.setdefault(i, []).append((None, d))
            for x in s: E.setdefault(i, []).append((x, d))
    return E, None


def closure(E, S):
    S = set(S); w = list(S)
    while w:
        for x, d in E.get(w.pop(), ()):
            if x is None and d not in S: S.add(d); w.append(d)
    return frozenset(S)


def differ(A, B):
    """a shortest word in exactly one of two languages, or None; automaton = (edges, starts, accepting)"""
    from collections import deque
    sa, sb = closure(A[0], A[1]), closure(B[0], B[1])
    seen = {(sa, sb)}; q = deque([(sa, sb, ())])
    while q:
        a, b, w = q.popleft()
        ia, ib = bool(a & A[2]), bool(b & B[2])
        if ia != ib: return w, ia
        letters = {x for s in a for x, _ in A[0].get(s, ()) if x is not None} | {x for s in b for x, _ in B[0].get(s, ()) if x is not None}
        for x in sorted(letters, key=repr):
            na = closure(A[0], {d for s in a for y, d in A[0].get(s, ()) if y == x}); nb = closure(B[0], {d for s in b for y, d in B[0].get(s, ()) if y == x})
            if (na, nb) not in seen: seen.add((na, nb)); q.append((na, nb, w + (x,)))
    return None


class Rx:
    """reference automata by Thompson's construction with fresh states"""
    n = 0
    def __init__(self): self.E = {}; self.s = self.new(); self.t = self.new()
    @staticmethod
    def new(): Rx.n += 1; return ("r", Rx.n)
    def edge(self, a, x, b): self.E.setdefault(a, []).append((x, b)); return self
    def take(self, o):
        for k, v in o.E.items(): self.E.setdefault(k, []).extend(v)
    def auto(self): return (self.E, {self.s}, frozenset([self.t]))


def letter(x):
    r = Rx(); r.edge(r.s, x, r.t); return r


def graph(states, start=0):
    """the language of an automaton of the library: from state 0 to the last"""
    r = Rx(); g = {i: Rx.new() for i in range(len(states))}
    for i, trs in enumerate(states):
        for s, d in trs:
            if not s: r.edge(g[i], None, g[d])
            for x in s: r.edge(g[i], x, g[d])
    r.edge(r.s, None, g[start]); r.edge(g[len(states) - 1], None, r.t)
    return r


def cat(*rs):
    r = Rx(); at = r.s
    for o in rs: r.take(o); r.edge(at, None, o.s); at = o.t
    r.edge(at, None, r.t); return r


def alt(*rs):
    r = Rx()
    for o in rs: r.take(o); r.edge(r.s, None, o.s); r.edge(o.t, None, r.t)
    return r


def star(o, lo=0, hi=None):
    """lo = 0 or 1; hi = 1 or None"""
    r = Rx(); r.take(o); r.edge(r.s, None, o.s); r.edge(o.t, None, r.t)
    if lo == 0: r.edge(r.s, None, r.t)
    if hi is None:
        m = Rx(); m.take(r); mid = Rx.new()
        # repeat through fresh states so that nothing outside can enter half-way
        m.E = {}; m.take(o); m.edge(m.s, None, mid); m.edge(mid, None, o.s); m.edge(o.t, None, m.t)
        back = Rx.new(); m.edge(o.t, None, back); m.edge(back, None, o.s)
        if lo == 0: m.edge(m.s, None, m.t)
        return m
    return r


# ---------------------------------------------------------------- library internals without a body
def _cell(st, p, off):
    c = st.mem[p.obj].cells.get(p.off + off)
    if c is None: raise Unsupported("a tree node in an unknown state")
    return c[1]


def _put(st, p, off, v): st.wobj(p.obj).cells[p.off + off] = (8, v)
P_, L_, R_ = 8, 16, 24


def rb_insert(E, st, f, a, ins):
    left, x, p, h = a[0], a[1], a[2], a[3]
    if not isinstance(left, int): raise Unsupported("insertion on an unknown side")
    _put(st, x, P_, p); _put(st, x, L_, 0); _put(st, x, R_, 0)
    st.wobj(x.obj).cells[x.off] = (4, 1)
    if left & 1:
        _put(st, p, L_, x)
        if p == h: _put(st, h, P_, x); _put(st, h, R_, x)
        elif p == _cell(st, h, L_): _put(st, h, L_, x)
    else:
        _put(st, p, R_, x)
        if p == _cell(st, h, R_): _put(st, h, R_, x)
    return ("val", None)


def _next(st, x, down, up):
    y = _cell(st, x, down)
    if isinstance(y, Ptr):
        while isinstance(_cell(st, y, up), Ptr): y = _cell(st, y, up)
        return y
    y = _cell(st, x, P_)
    while x == _cell(st, y, down): x, y = y, _cell(st, y, P_)
    return y if _cell(st, x, down) != y else x


def rb_inc(E, st, f, a, ins): return ("val", _next(st, a[0], R_, L_))


def rb_dec(E, st, f, a, ins):
    x = a[0]; c = st.mem[x.obj].cells.get(x.off)
    root = _cell(st, x, P_)
    if isinstance(root, Ptr) and _cell(st, root, P_) == x and c and c[1] == 0: return ("val", _cell(st, x, R_))   # end()
    return ("val", _next(st, x, L_, R_))


def rb_erase(E, st, f, a, ins):
    z, h = a[0], a[1]
    kids = lambda n: (_cell(st, n, L_), _cell(st, n, R_))
    def swap_in(old, new):
        p = _cell(st, old, P_)
        if p == h: _put(st, h, P_, new)
        elif _cell(st, p, L_) == old: _put(st, p, L_, new)
        else: _put(st, p, R_, new)
        if isinstance(new, Ptr): _put(st, new, P_, p)
    l, r = kids(z)
    first, last = _cell(st, h, L_) == z, _cell(st, h, R_) == z
    if isinstance(l, Ptr) and isinstance(r, Ptr):
        y = r
        while isinstance(_cell(st, y, L_), Ptr): y = _cell(st, y, L_)
        swap_in(y, _cell(st, y, R_))
        swap_in(z, y)
        l, r = kids(z)
        for o, c in ((L_, l), (R_, r)):
            _put(st, y, o, c)
            if isinstance(c, Ptr): _put(st, c, P_, y)
    else: swap_in(z, l if isinstance(l, Ptr) else r)
    root = _cell(st, h, P_)
    if not isinstance(root, Ptr): _put(st, h, L_, h); _put(st, h, R_, h)
    else:
        if first:
            while isinstance(_cell(st, root, L_), Ptr): root = _cell(st, root, L_)
            _put(st, h, L_, root)
        root = _cell(st, h, P_)
        if last:
            while isinstance(_cell(st, root, R_), Ptr): root = _cell(st, root, R_)
            _put(st, h, R_, root)
    return ("val", z)


def no_rehash(E, st, f, a, ins): return ("val", Agg(((0, 1, 0), (8, 8, 0))))


LIBRARY = [(r"^std::_Rb_tree_insert_and_rebalance\(", rb_insert), (r"^std::_Rb_tree_increment\(", rb_inc), (r"^std::_Rb_tree_decrement\(", rb_dec),
           (r"^std::_Rb_tree_rebalance_for_erase\(", rb_erase), (r"^std::__detail::_Prime_rehash_policy::_M_need_rehash\(", no_rehash)]


class ConcreteEngine(Engine):
    """nothing is merged: every run is a straight line (or a finite tree)"""
    def __init__(self, mod, dom, extra=(), **kw):
        hs = [(re.compile(p) if isinstance(p, str) else p, h) for p, h in list(extra) + LIBRARY]
        Engine.__init__(self, mod, dom, hs, **kw)
        self.uniq = 0; self.maxdepth = 600; self.max_states = 10**9
    def key(self, st):
        self.uniq += 1; return self.uniq


class Deep(AutoDomain):
    """recursion is followed; one that never ends is reported"""
    deep = 60
    def recursion(self, E, st, f, a, ins):
        n = sum(1 for x in st.frames if x.f is f)
        if n > self.deep: raise Violation("%s calls itself without end" % f.dem.split("(")[0], st, E.loc(ins), "endless")
        return ("call", f, a)


class Plain(Layout):
    """labels as the library holds them: lists of ranges; letters 0..m-1 stand for consecutive intervals"""
    def __init__(self, mod, T, base=40, step=2):
        Layout.__init__(self, mod, T)
        self.base = base; self.step = step
        self.rng = "Centaurus::Range<%s>" % T
        self.o_rv = offset_of(mod, self.cc, lambda n, k: k[0] == "class" and k[1].startswith("std::vector<"))
        ms = {n: (o, k[2]) for n, o, k in mod.types[self.rng]["members"]}
        self.r = (ms["m_start"], ms["m_end"]); self.s_rng = mod.types[self.rng]["size"]

    def cls(self, st, oid, off, s):
        """puts a class with the letters s"""
        cs = st.mem[oid].cells
        rs = []
        for x in sorted(s):
            a, b = self.base + self.step * x, self.base + self.step * (x + 1)
            if rs and rs[-1][1] == a: rs[-1][1] = b
            else: rs.append([a, b])
        vals = (0, 0, 0)
        if rs:
            ro = st.new(len(rs) * self.s_rng, "heap")
            for i, (a, b) in enumerate(rs):
                self.fill_rest(st, ro, i * self.s_rng, self.rng, {o for o, _ in self.r})
                for (o, w), x in zip(self.r, (a, b)): st.mem[ro].cells[i * self.s_rng + o] = (w, x)
            vals = (Ptr(ro, 0), Ptr(ro, len(rs) * self.s_rng), Ptr(ro, len(rs) * self.s_rng))
        self.fill_rest(st, oid, off, self.cc, set())
        for i, v in enumerate(vals): cs[off + self.o_rv + 8 * i] = (8, v)

    def fill_tr(self, st, oid, off, s, d):
        self.fill_rest(st, oid, off, self.tr, {self.o_label, self.o_dest})
        self.cls(st, oid, off + self.o_label, s)
        st.mem[oid].cells[off + self.o_dest] = (4, d & 0xffffffff)

    def label(self, st, p):
        """the letters of a class in memory; a range that does not consist of whole letters is itself a letter"""
        v = self.vec(st, Ptr(p.obj, p.off + self.o_rv))
        if not v: return frozenset()
        out = set()
        for i in range(v[1] // self.s_rng):
            a, b = (st.mem[v[0].obj].cells[v[0].off + i * self.s_rng + o][1] for o, w in self.r)
            if not isinstance(a, int) or not isinstance(b, int): raise Unsupported("a range in an unknown state")
            if (a - self.base) % self.step or (b - self.base) % self.step or a > b: out.add(("odd", a, b))
            else: out |= set(range((a - self.base) // self.step, (b - self.base) // self.step))
        return frozenset(out)

    def states(self, st, p, o_states, s_state, o_trans, extra=()):
        out = []
        v = self.vec(st, Ptr(p.obj, p.off + o_states))
        if not v: return out
        base, n = v
        for k in range(n // s_state):
            trs = []
            w = self.vec(st, Ptr(base.obj, base.off + k * s_state + o_trans))
            if w:
                for j in range(w[1] // self.s_tr):
                    q = w[0].off + j * self.s_tr
                    d = st.mem[w[0].obj].cells.get(q + self.o_dest)
                    if not d or not isinstance(d[1], int): raise Unsupported("a transition in an unknown state")
                    trs.append((self.label(st, Ptr(w[0].obj, q + self.o_label)), signed(d[1], 32)))
            ex = []
            for o in extra:
                c = st.mem[base.obj].cells.get(base.off + k * s_state + o)
                if not c or not isinstance(c[1], int): raise Unsupported("a state flag in an unknown state")
                ex.append(c[1])
            out.append((trs, ex))
        return out
