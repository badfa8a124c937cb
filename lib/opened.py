"""Files read through standard streams: a stream opened by name is asked whether that worked before anything is read from it."""
import re
import ir

OPEN = re.compile(r"^std::basic_(ifstream|fstream)<[^()]*>::(basic_(ifstream|fstream)|open)\((char const\*|std::__cxx11::basic_string<[^()]*> const&|std::filesystem)")
GOOD = re.compile(r"^std::basic_\w+<[^()]*>::(is_open|good|operator bool)\(\)( const)?$")
BAD = re.compile(r"^std::basic_\w+<[^()]*>::(operator!|fail|bad)\(\)( const)?$")
USE = re.compile(r"^std::istreambuf_iterator<[^()]*>::istreambuf_iterator\(std::basic_i|^std::basic_[io]*stream<[^()]*>::(read|get|getline|readsome|operator>>)\(|^std::\S* ?std::(operator>>|getline)|^std::basic_ios<[^()]*>::rdbuf\(\)|^std::basic_i?fstream<[^()]*>::rdbuf\(\)")


def callee(mod, i): return mod.functions.get(i["callee"][1]) if i["op"] in ("call", "invoke") and i.get("callee", [0])[0] == "g" else None


class Opened:
    def __init__(self, mod): self.mod = mod; self.memo = {}; self.sites = 0; self.bad = {}

    def origin(self, defs, o):
        while o[0] == "r" and o[1] in defs:
            i = defs[o[1]]
            if i["op"] == "getelementptr": o = i["base"]
            elif i["op"] in ("bitcast", "addrspacecast", "freeze"): o = i["ops"][0]
            else: break
        return (o[0], o[1]) if o[0] in ("r", "g") else None

    def flow(self, f, init):
        """states of the streams on the way; returns the states at the returns"""
        defs = {i["id"]: i for b in f.blocks for i in b if "id" in i}
        IN = {0: init}; todo = [0]; out = []
        while todo:
            b = todo.pop(); st = dict(IN[b]); last = None
            edges = None
            for i in f.blocks[b]:
                g = callee(self.mod, i)
                if g is not None: self.step(f, g, i, st, defs)
                if i["op"] == "ret": out.append(dict(st))
            t = f.blocks[b][-1]
            for s in f.succ(b):
                x = dict(st)
                if t["op"] == "br" and len(t["ops"]) > 1 and t["ops"][1][1] != t["ops"][2][1]:
                    q = self.query(defs, t["ops"][0])
                    if q and q[0] in x: x[q[0]] = "good" if q[1] == (s == t["ops"][2][1]) else "failed"
                new = self.join(IN.get(s), x)
                if new != IN.get(s): IN[s] = new; todo.append(s)
        return out

    def join(self, a, b):
        if a is None: return b
        return {k: a.get(k, b.get(k)) if a.get(k, b.get(k)) == b.get(k, a.get(k)) else "unasked" for k in set(a) | set(b)}

    def query(self, defs, o, pol=True, depth=0):
        """(stream, truth of the operand means it is open)"""
        if o[0] != "r" or o[1] not in defs or depth > 8: return None
        i = defs[o[1]]; g = callee(self.mod, i)
        if g is not None:
            s = self.origin(defs, i["args"][0]) if i["args"] else None
            if s and GOOD.search(g.dem): return s, pol
            if s and BAD.search(g.dem): return s, not pol
            return None
        if i["op"] in ("zext", "trunc", "freeze"): return self.query(defs, i["ops"][0], pol, depth + 1)
        if i["op"] == "xor" and i["ops"][1][:2] == ["i", 1] or i["op"] == "xor" and i["ops"][1][0] == "i" and i["ops"][1][1] in (1, -1, True): return self.query(defs, i["ops"][0], not pol, depth + 1)
        if i["op"] == "icmp" and i["ops"][1][0] == "i" and i["ops"][1][1] == 0 and i.get("pred") in ("eq", "ne"): return self.query(defs, i["ops"][0], pol == (i["pred"] == "ne"), depth + 1)
        return None

    def step(self, f, g, i, st, defs):
        o = [self.origin(defs, a) for a in i["args"]]
        if OPEN.search(g.dem): st[o[0]] = "unasked"; self.sites += 1; return
        if USE.search(g.dem):
            for x in o:
                if st.get(x) in ("unasked", "failed"): self.bad[(f.dem.split("(")[0], "%s:%s" % (i.get("file") or f.file, i.get("line") or f.line))] = st[x]
            return
        if g.defined and (ir.REPO + "/") in str(g.file):
            for k, x in enumerate(o):
                if x in st and k < len(g.args):
                    r = self.summary(g, k, st[x])
                    if r: st[x] = r

    def summary(self, g, k, s):
        key = (g.name, k, s)
        if key not in self.memo:
            self.memo[key] = s
            rs = {x.get(("r", g.args[k]["id"])) for x in self.flow(g, {("r", g.args[k]["id"]): s})}
            self.memo[key] = "good" if rs == {"good"} else s if len(rs) != 1 else rs.pop()
        return self.memo[key]

    def run(self):
        n = 0
        for f in self.mod.functions.values():
            if f.defined and (ir.REPO + "/") in str(f.file) and any(callee(self.mod, i) is not None and OPEN.search(callee(self.mod, i).dem) for b in f.blocks for i in b):
                self.flow(f, {}); n += 1
        return n
