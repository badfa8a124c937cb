"""The network of a rule: how it lies in memory, what it denotes, and the notation it is written in."""
import re
from ir import AnalysisBroken
from autom import *

SPECIAL = {ord(c) for c in "()|>;*+?:"} | {0}
KINDS = ("nonterminal", "literal", "regex")
isvec = lambda n, k: k[0] == "class" and k[1].startswith("std::vector<")


class RuleDomain(Deep):
    """the first k characters behind the colon are of the alphabet or start an atom, then the rule ends"""
    def __init__(self, k, alphabet, kinds=KINDS): self.k = k; self.al = alphabet; self.kinds = kinds
    def fact(self, st, i):
        if i in st.mon["facts"]: return st.mon["facts"][i]
        if i == 0: return ord(":")
        if i > self.k: return ord(";")
        return frozenset() if self.al is None else frozenset(SPECIAL - self.al)


class Net:
    """memory of ATNMachine<T>"""
    def __init__(self, mod, T):
        self.mod = mod; self.T = T
        self.machine = "Centaurus::ATNMachine<%s>" % T; self.node = "Centaurus::ATNNode<%s>" % T; self.tr = "Centaurus::ATNTransition<%s>" % T
        for c in (self.machine, self.node, self.tr):
            if c not in mod.types: raise AnalysisBroken("no layout of " + c)
        self.o_nodes = offset_of(mod, self.machine, isvec); self.o_trans = offset_of(mod, self.node, isvec)
        self.o_type = offset_of(mod, self.node, lambda n, k: k[0] == "enum"); self.o_id = offset_of(mod, self.node, lambda n, k: k[0] == "basic" and "localid" in n)
        self.o_dest = offset_of(mod, self.tr, lambda n, k: "dest" in n); self.o_tag = offset_of(mod, self.tr, lambda n, k: "tag" in n or "prio" in n)
        if None in (self.o_nodes, self.o_trans, self.o_type, self.o_id, self.o_dest, self.o_tag): raise AnalysisBroken("layout of the rule network not understood")
        self.s_machine = mod.types[self.machine]["size"]; self.s_node = mod.types[self.node]["size"]; self.s_tr = mod.types[self.tr]["size"]
        g = mod.globals.get("verif_atn_types")
        E = Engine(mod, Domain(), [])
        o = E.getobj(State(), ("g", "verif_atn_types"))
        vals = [signed(o.cells[4 * i][1], 32) if 4 * i in o.cells else 0 for i in range(5)]
        self.types = dict(zip(("blank", "nonterminal", "literal", "regex", "ws"), vals)); self.tname = {v: k for k, v in self.types.items()}

    def num(self, st, p, off):
        c = st.mem[p.obj].cells.get(p.off + off)
        if not c or not isinstance(c[1], int): raise Unsupported("a node in an unknown state")
        return signed(c[1], 32)

    def vec(self, st, p):
        cs = st.mem[p.obj].cells
        b, e = cs.get(p.off), cs.get(p.off + 8)
        if not b or isinstance(b[1], int): return None, 0
        return b[1], e[1].off - b[1].off

    def read(self, st, p):
        """[(type, id, [(dest, tag)])]"""
        out = []
        b, n = self.vec(st, Ptr(p.obj, p.off + self.o_nodes))
        for k in range(n // self.s_node):
            q = Ptr(b.obj, b.off + k * self.s_node)
            t, m = self.vec(st, Ptr(q.obj, q.off + self.o_trans))
            out.append((self.tname.get(self.num(st, q, self.o_type), "?"), self.num(st, q, self.o_id),
                        [(self.num(st, Ptr(t.obj, t.off + j * self.s_tr), self.o_dest), self.num(st, Ptr(t.obj, t.off + j * self.s_tr), self.o_tag)) for j in range(m // self.s_tr)]))
        return out


def marks(trs):
    """priority letter per edge, where the edges of a node differ in priority"""
    ts = [t for _, t in trs]
    return [("rank", t) if len(set(ts)) > 1 else None for t in ts]


def net_graph(nodes):
    """the language of a network: words of atoms and priority letters; (Rx, complaint)"""
    r = Rx(); a = {i: Rx.new() for i in range(len(nodes))}; b = {i: Rx.new() for i in range(len(nodes))}
    for i, (ty, nid, trs) in enumerate(nodes):
        r.edge(a[i], None if ty == "blank" else (ty,) if ty == "ws" else (ty, nid), b[i])
        for (d, t), m in zip(trs, marks(trs)):
            if not 0 <= d < len(nodes): return None, "node %d leads to node %d of %d" % (i, d, len(nodes))
            r.edge(b[i], m, a[d])
    r.edge(r.s, None, a[0]); r.edge(b[len(nodes) - 1], None, r.t)
    return r, None


class Refuse(Exception): pass


def reference(tok, spaced):
    """the network's language from the notation; tok(i): character, kind of atom, or 'bad'"""
    i = 1
    def selection():
        nonlocal i
        alts = []; rank = 0; ranks = []
        while True:
            alts.append(sequence()); ranks.append(rank)
            c = tok(i)
            if c != ord("|"): break
            i += 1
            if tok(i) == ord(">"): i += 1; rank += 1
        if rank: alts = [cat(letter(("rank", k)), a) for k, a in zip(ranks, alts)]
        return alt(*alts)
    def sequence():
        items = []
        while tok(i) not in (ord("|"), ord(")"), ord(";")): items.append(atom())
        e = Rx(); e.edge(e.s, None, e.t)
        return cat(*(items or [e]))
    def atom():
        nonlocal i
        c = tok(i)
        if c == ord("("):
            i += 1; r = selection()
            if tok(i) != ord(")"): raise Refuse()
            i += 1
        elif isinstance(c, str) and c != "bad":
            r = letter((c, 1000 + i))
            if spaced and c != "nonterminal": r = cat(letter(("ws",)), r)
            i += 1
        else: raise Refuse()
        q = tok(i)
        if q in (42, 43, 63):
            i += 1
            r = star(r, 1) if q == 43 else star(r, 0) if q == 42 else star(r, 0, 1)
        return r
    r = selection()
    if tok(i) != ord(";"): raise Refuse()
    return r, i + 1


def nothing(E, st, f, a, ins): return ("val", None)


def h_skip(E, st, f, a, ins): return ("val", C(st.mon["cur"]))


class RuleRun:
    """interprets ATNMachine(id, stream) on unknown rules; yields (state, machine, gid) per exit"""
    def __init__(self, mod, T, k, alphabet, kinds=KINDS):
        self.mod = mod; self.T = T; self.net = Net(mod, T); self.dom = RuleDomain(k, alphabet, kinds)
        self.ctor = mod.one(r"^Centaurus::ATNMachine<%s>::ATNMachine\(int, Centaurus::Stream&\)$" % re.escape(T))
        t = re.escape(T)
        hs = [(r"^Centaurus::ATNNode<%s>::ATNNode\(Centaurus::Stream&\)$" % t, self.h_node), (r"^Centaurus::NFA<%s>::(~?NFA|operator=)\(" % t, nothing),
              (r"^Centaurus::Identifier::(~?Identifier|operator=)\(", nothing), (r"^(\S+ )?std::(__cxx11::)?basic_string<.*>::(~?basic_string|operator=)(\[abi:cxx11\])?\(", nothing),
              (r"^Centaurus::Stream::skip_whitespace\(", h_skip)] + HANDLERS[1:]
        self.E = ConcreteEngine(mod, self.dom, hs, max_time=800)

    def h_node(self, E, st, f, a, ins):
        i = st.mon["cur"]; F = self.dom.fact(st, i)
        if isinstance(F, int): return ("throw", "unexpected")
        out = []
        for kind in self.dom.kinds:
            s = st.fork(); eat(s, kind)
            p = a[0]; net = self.net; self.fill(s, p)
            o = s.wobj(p.obj)
            for k in range(3): o.cells[p.off + net.o_trans + 8 * k] = (8, 0)
            o.cells[p.off + net.o_type] = (4, net.types[kind]); o.cells[p.off + net.o_id] = (4, 1000 + i)
            out.append((s, ("val", None)))
        s = st.fork(); eat(s, ("bad", F)); out.append((s, ("throw", "unexpected")))
        return ("alts", out)

    def fill(self, st, p):
        z = Layout.vtable(self, self.net.node)
        if z: st.wobj(p.obj).cells[p.off] = (8, Ptr(("g", z), 16))

    def start(self, gid):
        st = State(); st.mon["facts"] = {}; st.mon["cur"] = 0
        so = st.new(64, "stream"); mo = st.new(self.net.s_machine, "heap")
        self.E.start(st, self.ctor, [Ptr(mo, 0), gid & 0xffffffff, Ptr(so, 0)])
        return st, mo

    def text(self, s, conc, upto):
        out = []
        for i in range(upto):
            f = conc.get(i, self.dom.fact(s, i))
            if isinstance(f, tuple): f = "bad"
            out.append({"nonterminal": "N", "literal": "'l'", "regex": "/r/", "bad": "<bad>", "other": "N"}.get(f, "?") if isinstance(f, str) else chr(f) if isinstance(f, int) and f else "<end>" if f == 0 else "?")
        return " ".join(out)

    def choices(self, s):
        """all ways the characters still open could be"""
        top = max([s.mon["cur"]] + [i + 1 for i in s.mon["facts"]])
        opts = {}
        for i in range(top):
            f = self.dom.fact(s, i)
            if isinstance(f, frozenset): opts[i] = sorted(SPECIAL - f) + list(self.dom.kinds) + ["bad"]
            elif isinstance(f, tuple) and f[0] == "bad": opts[i] = sorted(SPECIAL - f[1]) + ["bad"]
        n = 1
        for o in opts.values(): n *= len(o)
        if n > 20000: raise AnalysisBroken("too many unresolved characters")
        import itertools
        for vs in itertools.product(*opts.values()): yield dict(zip(opts, vs))
