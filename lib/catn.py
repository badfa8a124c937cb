"""The prediction network (CATNMachine): operand rule networks in memory, the import interpreted, the result read back."""
import re
from ir import AnalysisBroken
from autom import *
from atn import Net, isvec

STR = {"char": ("char", 1), "wchar_t": ("wchar_t", 4)}


def esz(f): return 4 if re.match(r"^(?:\S+ )?std::(?:__cxx11::)?basic_string<wchar_t", f.dem) or "operator==<wchar_t" in f.dem or "operator!=<wchar_t" in f.dem else 1


def put_text(st, p, chars, w):
    """a std::basic_string at p"""
    b = st.new((len(chars) + 1) * w, "heap")
    for i, c in enumerate(list(chars) + [0]): st.mem[b].cells[i * w] = (w, c)
    o = st.wobj(p.obj)
    o.cells[p.off] = (8, Ptr(b, 0)); o.cells[p.off + 8] = (8, len(chars))


def get_text(st, p, w):
    cs = st.mem[p.obj].cells
    b, n = cs.get(p.off), cs.get(p.off + 8)
    if not b or not isinstance(b[1], Ptr) or not isinstance(n[1], int): raise Unsupported("a string in an unknown state")
    out = []
    for i in range(n[1]):
        c = st.mem[b[1].obj].cells.get(b[1].off + i * w)
        if not c: raise Unsupported("a string in an unknown state")
        out.append(c[1])
    return out


def t_empty(E, st, f, a, ins): put_text(st, a[0], [], esz(f)); return ("val", None)
def t_copy(E, st, f, a, ins):
    w = esz(f); v = get_text(st, a[1], w)
    if "&&" in f.dem and a[0] != a[1]: put_text(st, a[1], [], w)
    put_text(st, a[0], v, w)
    return ("val", a[0] if "operator=" in f.dem else None)
def t_none(E, st, f, a, ins): return ("val", None)
def t_size(E, st, f, a, ins): return ("val", len(get_text(st, a[0], esz(f))))
def t_isempty(E, st, f, a, ins): return ("val", int(not get_text(st, a[0], esz(f))))
def t_begin(E, st, f, a, ins): return ("val", st.mem[a[0].obj].cells[a[0].off][1])
def t_end(E, st, f, a, ins):
    w = esz(f); b = st.mem[a[0].obj].cells[a[0].off][1]
    return ("val", Ptr(b.obj, b.off + w * len(get_text(st, a[0], w))))
def t_at(E, st, f, a, ins):
    w = esz(f); b = st.mem[a[0].obj].cells[a[0].off][1]
    if not isinstance(a[1], int): raise Unsupported("an unknown position in a string")
    if a[1] > len(get_text(st, a[0], w)): raise Violation("a string is read behind its end", st, E.loc(ins), "string-index")
    return ("val", Ptr(b.obj, b.off + w * a[1]))
def t_eq(E, st, f, a, ins):
    w = esz(f); return ("val", int((get_text(st, a[0], w) == get_text(st, a[1], w)) == ("operator==" in f.dem)))
def t_compare(E, st, f, a, ins):
    w = esz(f); x, y = get_text(st, a[0], w), get_text(st, a[1], w)
    return ("val", 0 if x == y else 1 if x > y else 0xffffffff)


S = r"^(?:\S+ )?std::__cxx11::basic_string<(?:wchar_t|char)\b.*>::"
TEXTS = [(S + r"basic_string\(\)$", t_empty), (S + r"(?:basic_string|operator=)\(std::__cxx11::basic_string<[^()]*> ?(?:const&|&&)\)$", t_copy),
         (S + r"~basic_string\(\)$", t_none), (S + r"(?:size|length)\(\) const$", t_size), (S + r"empty\(\) const$", t_isempty),
         (S + r"c?begin\(\)(?: const)?$", t_begin), (S + r"c?end\(\)(?: const)?$", t_end), (S + r"(?:c_str|data)\(\)(?: const)?$", t_begin),
         (S + r"(?:operator\[\]|at)\(unsigned long\)(?: const)?$", t_at), (S + r"compare\(std::__cxx11::basic_string<[^()]*> const&\) const$", t_compare),
         (r"^bool std::operator[!=]=<(?:wchar_t|char), ", t_eq)]


class Import:
    """interprets CATNMachine<T>(const ATNMachine<T>&)"""
    WS = tuple(ord(c) for c in " \t\r\n")
    def __init__(self, mod, T):
        self.mod = mod; self.T = T; self.net = Net(mod, T); self.lay = Plain(mod, T, 0, 1)
        n = self.net
        mem = {m: (o, k) for m, o, k in mod.types[n.node]["members"]}
        def at(want, what):
            xs = [o for m, (o, k) in mem.items() if k[0] == "class" and want(k[1])]
            if len(xs) != 1: raise AnalysisBroken("no %s in the rule node" % what)
            return xs[0]
        self.a_nfa = at(lambda c: c == "Centaurus::NFA<%s>" % T, "automaton"); self.a_id = at(lambda c: c == "Centaurus::Identifier", "identifier")
        self.a_lit = at(lambda c: "basic_string<" in c or c == "std::string", "literal")
        self.i_str = offset_of(mod, "Centaurus::Identifier", lambda m, k: k[0] == "class" and "basic_string<" in k[1] or k[0] == "class" and k[1].endswith("wstring"))
        self.machine = "Centaurus::CATNMachine<%s>" % T; self.node = "Centaurus::CATNNode<%s>" % T
        self.o_nodes = offset_of(mod, self.machine, isvec); self.o_trans = offset_of(mod, self.node, isvec)
        self.o_sub = offset_of(mod, self.node, lambda m, k: k[0] == "class" and k[1] == "Centaurus::Identifier")
        self.o_tag = offset_of(mod, self.lay.tr, lambda m, k: "tag" in m)
        if None in (self.i_str, self.o_nodes, self.o_trans, self.o_sub, self.o_tag): raise AnalysisBroken("layout of the prediction network not understood")
        t = re.escape(T)
        self.ctor = mod.one(r"^Centaurus::CATNMachine<%s>::CATNMachine\(Centaurus::ATNMachine<%s> const&\)$" % (t, t))
        self.conv = mod.one(r"^Centaurus::CATNMachine<%s>::convert_atn_index\(int\) const$" % t)
        self.s_machine = mod.types[self.machine]["size"]; self.s_node = mod.types[self.node]["size"]

    def write(self, st, p, nodes):
        """nodes: [(type, content, [(dest, tag)])]; content: text of a literal or name, automaton of a regex"""
        n = self.net
        no = st.new(len(nodes) * n.s_node, "heap"); cs = st.mem[no].cells
        for k, (ty, what, trs) in enumerate(nodes):
            o = k * n.s_node
            z = Layout.vtable(self, n.node)
            if z: cs[o] = (8, Ptr(("g", z), 16))
            cs[o + n.o_type] = (4, n.types[ty]); cs[o + n.o_id] = (4, 1)
            put_text(st, Ptr(no, o + self.a_id + self.i_str), what if ty == "nonterminal" else [], 4)
            put_text(st, Ptr(no, o + self.a_lit), what if ty == "literal" else [], 1)
            self.lay.write(st, Ptr(no, o + self.a_nfa), what if ty == "regex" else [[]])
            vals = (0, 0, 0)
            if trs:
                to = st.new(len(trs) * n.s_tr, "heap")
                for j, (d, t) in enumerate(trs):
                    for m, mo, mk in self.mod.types[n.tr]["members"]:
                        if mk[0] in ("basic", "enum", "ptr"): st.mem[to].cells[j * n.s_tr + mo] = (mk[2], 0)
                    z = Layout.vtable(self, n.tr)
                    if z: st.mem[to].cells[j * n.s_tr] = (8, Ptr(("g", z), 16))
                    st.mem[to].cells[j * n.s_tr + n.o_dest] = (4, d); st.mem[to].cells[j * n.s_tr + n.o_tag] = (4, t)
                vals = (Ptr(to, 0), Ptr(to, len(trs) * n.s_tr), Ptr(to, len(trs) * n.s_tr))
            cs = st.mem[no].cells
            for i, v in enumerate(vals): cs[o + n.o_trans + 8 * i] = (8, v)
        w = st.wobj(p.obj)
        for i, v in enumerate((Ptr(no, 0), Ptr(no, len(nodes) * n.s_node), Ptr(no, len(nodes) * n.s_node))): w.cells[p.off + n.o_nodes + 8 * i] = (8, v)

    def read(self, st, p):
        """[(name or None, [(letters, dest, tag)])]"""
        out = []
        v = self.lay.vec(st, Ptr(p.obj, p.off + self.o_nodes))
        if not v: return out
        base, n = v
        for k in range(n // self.s_node):
            q = Ptr(base.obj, base.off + k * self.s_node); trs = []
            name = get_text(st, Ptr(q.obj, q.off + self.o_sub + self.i_str), 4)
            w = self.lay.vec(st, Ptr(q.obj, q.off + self.o_trans))
            for j in range(w[1] // self.lay.s_tr if w else 0):
                x = Ptr(w[0].obj, w[0].off + j * self.lay.s_tr); cs = st.mem[x.obj].cells
                d, t = cs.get(x.off + self.lay.o_dest), cs.get(x.off + self.o_tag)
                if not d or not t or not isinstance(d[1], int) or not isinstance(t[1], int): raise Unsupported("a transition in an unknown state")
                trs.append((self.lay.label(st, Ptr(x.obj, x.off + self.lay.o_label)), signed(d[1], 32), signed(t[1], 32)))
            out.append((tuple(name) or None, trs))
        return out

    def engine(self):
        E = ConcreteEngine(self.mod, Deep(), TEXTS, max_time=300); return E

    def run(self, nodes):
        """[(kind, state, machine)]"""
        E = self.engine(); st = State(); st.mon["facts"] = {}; st.mon["cur"] = 0
        ao = st.new(self.net.s_machine, "heap"); co = st.new(self.s_machine, "heap")
        self.write(st, Ptr(ao, 0), nodes)
        E.start(st, self.ctor, [Ptr(co, 0), Ptr(ao, 0)])
        return [(k, s, Ptr(co, 0)) for k, s, v in E.run([st])]

    def locate(self, st, p, index):
        E = self.engine(); s = st.fork(); s.frames = []
        E.start(s, self.conv, [p, index])
        return [(k, signed(v, 32) if isinstance(v, int) else v) for k, _, v in E.run([s])]


def marked(trs):
    ts = [t[-1] for t in trs]
    return [("rank", t) if len(set(ts)) > 1 else None for t in ts]


def rule_graph(nodes, WS):
    """the language of a rule network, character by character"""
    r = Rx(); a = [Rx.new() for _ in nodes]; b = [Rx.new() for _ in nodes]
    for i, (ty, what, trs) in enumerate(nodes):
        if ty == "literal":
            cur = a[i]
            for c in what: n = Rx.new(); r.edge(cur, c, n); cur = n
            r.edge(cur, None, b[i])
        elif ty == "regex":
            m = [Rx.new() for _ in what]
            r.edge(a[i], None, m[0]); r.edge(m[-1], None, b[i])
            for k, ts in enumerate(what):
                for s, d in ts:
                    for x in s or (None,): r.edge(m[k], x, m[d])
        elif ty == "ws":
            r.edge(a[i], None, b[i])
            for x in WS: r.edge(b[i], x, b[i])
        else: r.edge(a[i], None if ty == "blank" else ("name", tuple(what)), b[i])
        for (d, t), m in zip(trs, marked(trs)): r.edge(b[i], m, a[d])
        if not trs: r.edge(b[i], None, r.t)
    return r.edge(r.s, None, a[0])


def machine_graph(nodes):
    """the language of a prediction network; (Rx, complaint)"""
    r = Rx(); a = [Rx.new() for _ in nodes]; b = [Rx.new() for _ in nodes]
    for i, (name, trs) in enumerate(nodes):
        r.edge(a[i], ("name", name) if name else None, b[i])
        for (s, d, t), m in zip(trs, marked(trs)):
            if not 0 <= d < len(nodes): return None, "node %d leads to node %d of %d" % (i, d, len(nodes))
            for x in s or (None,):
                if m is None: r.edge(b[i], x, a[d])
                else: n = Rx.new(); r.edge(b[i], m, n); r.edge(n, x, a[d])
        if not trs: r.edge(b[i], None, r.t)
    return r.edge(r.s, None, a[0]), None
