"""The predictor of a decision (LookaheadDFA): operand networks in memory, its construction interpreted, the table read back and
compared with the set of places where the text read so far can have led each alternative."""
import re
from collections import deque
from ir import AnalysisBroken
from autom import *
from atn import isvec
from catn import Import, TEXTS, put_text


class Skip(Exception): pass


class Places:
    """where the text can have led: (alternative, stack of calls, rule, node); below the stack the caller is unknown"""
    def __init__(self, rules, root, tags):
        self.rules = rules; self.root = root; self.ranked = tags
        self.sites = {}
        for m, ns in rules.items():
            for i, (name, _) in enumerate(ns):
                if name: self.sites.setdefault(name, []).append((m, i))

    def enter(self, color, stack, m, i, chain):
        """places reached without reading, each with the choices made on the way"""
        out = {}
        todo = [(stack, m, i, False, chain)]
        while todo:
            stack, m, i, after, ch = todo.pop(0)
            if len(stack) > 6 or len(ch) > 60: raise Skip("calls too deep")
            k = (color, stack, m, i, after)
            if k in out:
                if self.ranked and ch not in out[k]: out[k].add(ch)
                if ch in out[k] and len(out[k]) >= 1 and not self.ranked: continue
                if len(out[k]) > 8: raise Skip("too many ways")
                if not self.ranked: continue
            else: out[k] = {ch}
            name, trs = self.rules[m][i]
            if name and not after: todo.append((stack + ((m, i),), name, 0, False, ch)); continue
            if not trs:
                if stack: todo.append((stack[:-1], stack[-1][0], stack[-1][1], True, ch))
                else: todo += [((), mm, ii, True, ch) for mm, ii in self.sites.get(m, ())]
                continue
            for s, d, t in trs:
                if not s: todo.append((stack, m, d, False, ch + ((m, i, t),)))
        return out

    def start(self):
        m, i = self.root; out = {}
        for k, (s, d, t) in enumerate(self.rules[m][i][1]): out.update(self.enter(k + 1, (), m, d, ((m, i, t),)))
        return out

    def letters(self, S): return sorted({x for (c, st, m, i, af) in S for s, d, t in self.rules[m][i][1] if s and not (self.rules[m][i][0] and not af) for x in s})

    def step(self, S, x):
        """the places behind letter x: those with a superior rival are given up"""
        dep = {}
        for (c, st, m, i, af), chs in S.items():
            if self.rules[m][i][0] and not af: continue
            for s, d, t in self.rules[m][i][1]:
                if s and x in s: dep.setdefault((c, st, m, d), set()).update(chs)
        if self.ranked:
            if any(len(v) > 1 for v in dep.values()): raise Skip("one place, several ways")
            one = {k: next(iter(v)) for k, v in dep.items()}
            sup = {(a, b) for a in one for b in one if superior(one[a], one[b])}
            if any((a, b) in sup and (b, c) in sup and (a, c) not in sup for a in one for b in one for c in one): raise Skip("ranks are no order")
            dep = {k: {one[k]} for k in one if not any((a, k) in sup for a in one)}
        return dep

    def close(self, dep):
        out = {}
        for (c, st, m, d), chs in dep.items():
            for ch in chs:
                for k, v in self.enter(c, st, m, d, ch).items(): out.setdefault(k, set()).update(v)
        return out


def superior(p, q):
    for a, b in zip(p, q):
        if a[:2] == b[:2] and a[2] != b[2]: return a[2] < b[2]
    return False


class Predict(Import):
    def __init__(self, mod, T="char"):
        Import.__init__(self, mod, T); self.mod = mod; t = re.escape(T)
        self.comp = "Centaurus::CompositeATN<%s>" % T; self.ldfa = "Centaurus::LookaheadDFA<%s>" % T
        self.build = mod.one(r"^Centaurus::LookaheadDFA<%s>::LookaheadDFA\(Centaurus::CompositeATN<%s> const&, Centaurus::ATNPath const&, bool\)$" % (t, t))
        self.o_dict = offset_of(mod, self.comp, lambda n, k: k[0] == "class" and k[1].startswith("std::unordered_map<")); self.s_comp = mod.types[self.comp]["size"]
        self.hnode = next((c for c in mod.types if c.startswith("std::__detail::_Hash_node<std::pair<const Centaurus::Identifier, Centaurus::CATNMachine<%s>" % T)), None)
        self.s_id = mod.types["Centaurus::Identifier"]["size"]
        if self.hnode is None or self.o_dict is None: raise AnalysisBroken("layout of the composite network not understood")
        self.s_path = mod.types["Centaurus::ATNPath"]["size"]; self.o_path = offset_of_base(mod, "Centaurus::ATNPath")
        self.o_ls = offset_of(mod, self.ldfa, isvec); lst = "Centaurus::LDFAState<%s>" % T
        self.o_lt = offset_of(mod, lst, isvec); self.s_ls = mod.types[lst]["size"]; self.s_ldfa = mod.types[self.ldfa]["size"]
        if None in (self.o_ls, self.o_lt): raise AnalysisBroken("layout of the predictor not understood")

    def machine_at(self, st, p, nodes):
        z = Layout.vtable(self, self.machine)
        if z: st.wobj(p.obj).cells[p.off] = (8, Ptr(("g", z), 16))
        no = st.new(len(nodes) * self.s_node, "heap")
        for k, (name, trs) in enumerate(nodes):
            o = k * self.s_node; z = Layout.vtable(self, self.node); cs = st.mem[no].cells
            if z: cs[o] = (8, Ptr(("g", z), 16))
            for m, mo, mk in self.mod.types[self.node]["members"]:
                if mk[0] in ("basic", "enum"): cs[o + mo] = (mk[2], 0xffffffff)
            put_text(st, Ptr(no, o + self.o_sub + self.i_str), [ord(c) for c in name] if name else [], 4)
            vals = (0, 0, 0)
            if trs:
                to = st.new(len(trs) * self.lay.s_tr, "heap")
                for j, (s, d, t) in enumerate(trs):
                    self.lay.fill_tr(st, to, j * self.lay.s_tr, [ord(c) for c in s], d)
                    st.mem[to].cells[j * self.lay.s_tr + self.o_tag] = (4, t)
                n = len(trs) * self.lay.s_tr; vals = (Ptr(to, 0), Ptr(to, n), Ptr(to, n))
            for i, v in enumerate(vals): st.mem[no].cells[o + self.o_trans + 8 * i] = (8, v)
        w = st.wobj(p.obj); n = len(nodes) * self.s_node
        for i, v in enumerate((Ptr(no, 0), Ptr(no, n), Ptr(no, n))): w.cells[p.off + self.o_nodes + 8 * i] = (8, v)

    def dict_at(self, st, p, rules):
        """a hash table with one bucket"""
        s = self.mod.types[self.hnode]["size"]; prev = None; first = None
        for name, nodes in rules.items():
            h = st.new(s, "heap")
            put_text(st, Ptr(h, 8 + self.i_str), [ord(c) for c in name], 4)
            self.machine_at(st, Ptr(h, 8 + self.s_id), nodes)
            st.mem[h].cells[s - 8] = (8, 7); st.mem[h].cells[0] = (8, 0)
            if prev is not None: st.mem[prev].cells[0] = (8, Ptr(h, 0))
            else: first = h
            prev = h
        w = st.wobj(p.obj).cells
        at = {m: p.off + o for m, o, k in next(t for c, t in self.mod.types.items() if c.startswith("std::_Hashtable<Centaurus::Identifier, std::pair<const Centaurus::Identifier, Centaurus::CATNMachine<%s>" % self.T) and any(m == "_M_buckets" for m, _, _ in t["members"]))["members"]}
        w[at["_M_buckets"]] = (8, Ptr(p.obj, at["_M_single_bucket"])); w[at["_M_bucket_count"]] = (8, 1); w[at["_M_before_begin"]] = (8, Ptr(first, 0)); w[at["_M_element_count"]] = (8, len(rules))
        w[at["_M_rehash_policy"]] = (4, TOP); w[at["_M_rehash_policy"] + 8] = (8, 0); w[at["_M_single_bucket"]] = (8, Ptr(p.obj, at["_M_before_begin"]))

    def run(self, rules, root, opt):
        """[(kind, state table or None)]"""
        def hb(E, st, f, a, ins): return ("val", 7)
        E = ConcreteEngine(self.mod, Deep(), TEXTS + [(r"^std::_Hash_bytes\(", hb)], max_time=300)
        st = State(); st.mon["facts"] = {}; st.mon["cur"] = 0
        co = st.new(self.s_comp, "heap"); lo = st.new(self.s_ldfa, "heap"); po = st.new(self.s_path, "heap")
        self.dict_at(st, Ptr(co, self.o_dict), rules)
        el = self.s_id + 8; e = st.new(el, "heap")
        put_text(st, Ptr(e, self.i_str), [ord(c) for c in root[0]], 4); st.mem[e].cells[self.s_id] = (4, root[1])
        z = "_ZTVN9Centaurus7ATNPathE"
        if z in self.mod.globals: st.mem[po].cells[0] = (8, Ptr(("g", z), 16))
        for i, v in enumerate((Ptr(e, 0), Ptr(e, el), Ptr(e, el))): st.mem[po].cells[self.o_path + 8 * i] = (8, v)
        E.start(st, self.build, [Ptr(lo, 0), Ptr(co, 0), Ptr(po, 0), opt])
        out = []
        for k, s, v in E.run([st]): out.append((k, [t for t, _ in self.lay.states(s, Ptr(lo, 0), self.o_ls, self.s_ls, self.o_lt)] if k == "ret" else None))
        self.steps = E.steps if hasattr(E, "steps") else None
        return out


def offset_of_base(mod, cls):
    for o, b in mod.types[cls]["bases"]:
        if b[1].startswith("std::vector<"): return o
    raise AnalysisBroken("a path is no list")


def judge(table, P):
    """(rule, message) of the first difference, or None; number of situations compared"""
    if not table: return ("empty", "the predictor has no state"), 0
    S0 = P.start(); seen = {}; q = deque([(0, S0, "")]); n = 0
    key = lambda S: frozenset((k, frozenset(v)) for k, v in S.items()) if P.ranked else frozenset(S)
    while q:
        i, S, w = q.popleft()
        if (i, key(S)) in seen: continue
        seen[(i, key(S))] = 1; n += 1
        if n > 400: raise Skip("too many situations")
        ls = set(P.letters(S)) | {chr(x) if isinstance(x, int) else x for s, d in table[i] for x in s}
        for s, d in table[i]:
            if not s: return ("epsilon", "state %d has a transition without characters" % i), n
            if d >= len(table): return ("dangling", "a transition of state %d leads to state %d of %d" % (i, d, len(table))), n
        for x in sorted(ls, key=str):
            to = [d for s, d in table[i] if (ord(x) if isinstance(x, str) else x) in s]
            if len(set(to)) > 1: return ("ambiguous", "behind \"%s\" the character '%s' leads to different states" % (w, x)), n
            dep = P.step(S, x) if isinstance(x, str) else {}
            cols = {k[0] for k in dep}; d = to[0] if to else None
            if not cols:
                if d is not None: return ("surplus", "\"%s\" %s although no alternative can start so" % (w + str(x), "is taken for alternative %d" % -d if d < 0 else "is followed")), n
            elif len(cols) == 1:
                c = cols.pop()
                if d is None: return ("missing", "\"%s\" is refused although alternative %d can start so" % (w + x, c)), n
                if d >= 0: return ("late", "\"%s\" is not decided although only alternative %d is left" % (w + x, c)), n
                if d != -c: return ("wrong", "\"%s\" is taken for alternative %d, only alternative %d is left" % (w + x, -d, c)), n
            else:
                if d is None: return ("missing", "\"%s\" is refused although the alternatives %s can start so" % (w + x, sorted(cols))), n
                if d < 0: return ("early", "\"%s\" is taken for alternative %d although the alternatives %s are left" % (w + x, -d, sorted(cols))), n
                q.append((d, P.close(dep), w + x))
    return None, n
