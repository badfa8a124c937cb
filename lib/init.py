"""Definite-initialisation dataflow over LLVM IR.

For a function and one of its pointer parameters: which bytes of the pointee are
written on every path to a normal return, and which are read on some path before
they were written.  Calls are summarised recursively (greatest fixpoint for writes)."""
from ir import AnalysisBroken

NOREAD = ("llvm.lifetime", "llvm.dbg", "llvm.assume")
FULL = None     # "everything written": the value at unreachable points


class Flow:
    def __init__(self, mod, fields=None):
        self.mod = mod; self.sum = {}; self.active = set(); self.indirect = None; self.rec = False

    def roots(self, f, argno):
        """registers that are argument argno plus a constant offset"""
        reg = {f.args[argno]["id"]: 0}
        changed = True
        while changed:
            changed = False
            for blk in f.blocks:
                for ins in blk:
                    if "id" not in ins or ins["id"] in reg: continue
                    op = ins["op"]
                    if op == "getelementptr" and ins["base"][0] == "r" and ins["base"][1] in reg:
                        b = reg[ins["base"][1]]
                        reg[ins["id"]] = None if (ins["var"] or b is None) else b + ins["off"]; changed = True
                    elif op in ("bitcast", "freeze") and ins["ops"][0][0] == "r" and ins["ops"][0][1] in reg:
                        reg[ins["id"]] = reg[ins["ops"][0][1]]; changed = True
                    elif op == "phi":
                        vs = [reg.get(v[1], "x") if v[0] == "r" else "x" for v, _ in ins["in"]]
                        if any(v != "x" for v in vs):
                            reg[ins["id"]] = vs[0] if all(v == vs[0] for v in vs) else None; changed = True
                    elif op == "select":
                        vs = [reg.get(v[1], "x") if v[0] == "r" else "x" for v in ins["ops"][1:]]
                        if any(v != "x" for v in vs):
                            reg[ins["id"]] = vs[0] if all(v == vs[0] for v in vs) else None; changed = True
        return reg

    def indefinite(self, f):
        """registers that may hold an undefined value"""
        bad = set(); changed = True
        def isbad(v): return v[0] == "u" or v[0] == "r" and v[1] in bad
        while changed:
            changed = False
            for blk in f.blocks:
                for ins in blk:
                    if "id" not in ins or ins["id"] in bad: continue
                    if ins["op"] == "phi" and any(isbad(v) for v, _ in ins["in"]) or \
                       ins["op"] in ("zext", "sext", "trunc", "add", "sub", "mul", "freeze") and any(isbad(v) for v in ins["ops"]):
                        bad.add(ins["id"]); changed = True
        return bad

    def summary(self, f, argno):
        """(writes: frozenset of bytes or FULL, reads: {byte: location})"""
        key = (f.name, argno)
        if key in self.sum: return self.sum[key]
        if not f.defined or argno >= len(f.args): return (frozenset(), {})
        if key in self.active:
            self.rec = True
            return (FULL, {})
        self.active.add(key)
        reg = self.roots(f, argno); bad = self.indefinite(f)
        n = len(f.blocks)
        inn = [FULL] * n; inn[0] = frozenset()
        reads = {}
        out = FULL
        work = [0]; first = set()
        def meet(a, b):
            if a is FULL: return b
            if b is FULL: return a
            return a & b
        def flow(to, v):
            m = meet(inn[to], v)
            if m != inn[to] or to not in first:
                inn[to] = m; first.add(to); work.append(to)
        first.add(0)
        while work:
            b = work.pop()
            cur = inn[b]
            for ins in f.blocks[b]:
                op = ins["op"]
                def off(o): return reg.get(o[1], "x") if o[0] == "r" else "x"
                def rd(lo, hi, ins=ins):
                    if cur is FULL: return
                    for x in range(lo, hi):
                        if x not in cur: reads.setdefault(x, "%s:%s" % (ins.get("file", f.file), ins.get("line", "?")))
                if op == "store":
                    v, p = ins["ops"][0], ins["ops"][1]
                    o = off(p)
                    if o not in ("x", None) and cur is not FULL and not (v[0] == "u" or v[0] == "r" and v[1] in bad):
                        cur = cur | frozenset(range(o, o + ins["ssize"]))
                elif op == "load":
                    o = off(ins["ops"][0])
                    if o not in ("x", None): rd(o, o + ins["size"])
                elif op in ("call", "invoke"):
                    cl = ins["callee"]
                    w = frozenset()
                    for k, a in enumerate(ins["args"]):
                        o = off(a)
                        if o in ("x", None): continue
                        if cl[0] == "g":
                            g = self.mod.functions.get(cl[1])
                            nm = cl[1]
                            if nm.startswith(NOREAD): continue
                            if nm.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset", "memcpy", "memset", "memmove")):
                                sz = ins["args"][2]
                                if sz[0] in ("i", "I"):
                                    if k == 0: w = w | frozenset(range(o, o + int(sz[1])))
                                    else: rd(o, o + int(sz[1]))
                                continue
                            if g is not None and g.defined:
                                sw, sr = self.summary(g, k)
                                for x, l in sr.items():
                                    if cur is not FULL and (o + x) not in cur: reads.setdefault(o + x, l)
                                if sw is FULL or w is FULL: w = FULL
                                else: w = w | frozenset(o + x for x in sw)
                        elif self.indirect:
                            for g in self.indirect(f, ins, k):
                                for x, l in self.summary(g, 0)[1].items():
                                    if cur is not FULL and (o + x) not in cur: reads.setdefault(o + x, l)
                    if op == "invoke":
                        flow(ins["unwind"], cur)
                        if w is FULL: cur = FULL
                        elif cur is not FULL: cur = cur | w
                        flow(ins["normal"], cur)
                    else:
                        if w is FULL: cur = FULL
                        elif cur is not FULL: cur = cur | w
                elif op == "ret":
                    out = meet(out, cur)
                elif op in ("br", "switch"):
                    for s in f.succ(b): flow(s, cur)
            # out only shrinks: recomputation is monotone
        self.active.discard(key)
        r = (out, reads)
        if not self.rec or not self.active:
            self.sum[key] = r
            if not self.active: self.rec = False
        return r
