"""Abstract interpreter over LLVM IR.

States are finite abstractions: registers and memory cells hold either
constants, pointers, container models, or domain values supplied by the
property (order tokens, provenance tokens, bit vectors of sources, ...).
An undetermined branch forks the state; states are canonicalised (heap
renamed by reachability, dead registers dropped) at merge points and explored
to a fixpoint, so loops terminate without a bound.  Nothing of the program is
executed and no path condition is handed to a solver.
"""
import re, sys, time
from collections import namedtuple, deque
from ir import AnalysisBroken, uses


class Unsupported(AnalysisBroken):
    pass


class Violation(Exception):
    def __init__(self, msg, st=None, loc=None, rule=None):
        Exception.__init__(self, msg)
        self.msg = msg; self.st = st; self.loc = loc; self.rule = rule


class Infeasible(Exception):
    """raised by handlers to prune the current state"""


class _Single:
    def __init__(self, n): self.n = n
    def __repr__(self): return self.n
    def __reduce__(self): return (_single, (self.n,))


_S = {}


def _single(n):
    if n not in _S:
        _S[n] = _Single(n)
    return _S[n]


TOP = _single("TOP"); UNDEF = _single("UNDEF"); ZERO = _single("ZERO"); NULL = 0


class Ptr(namedtuple("Ptr", "obj off")):
    __slots__ = ()


class Alts(namedtuple("Alts", "outs")):      # undetermined result: [(value, refine)]
    __slots__ = ()


class Agg(namedtuple("Agg", "cells")):      # cells: tuple of (off,size,val)
    __slots__ = ()


class AV:
    """base of domain values; subclasses are immutable and hashable.
    canon(ren) returns a hashable key, renaming object ids through ren."""
    __slots__ = ()

    def canon(self, ren):
        return self

    def refs(self):
        return ()


class Model(AV):
    """base of container models stored in memory cells"""
    __slots__ = ()

    def clone(self, st, eng):
        return self


class Obj:
    __slots__ = ("cells", "size", "tag", "ro")

    def __init__(self, size, tag, cells=None, ro=False):
        self.size = size; self.tag = tag; self.cells = cells if cells is not None else {}; self.ro = ro


class Frame:
    __slots__ = ("f", "bi", "ii", "regs", "prev", "retins", "on_ret")

    def __init__(self, f, regs, on_ret=None):
        self.f = f; self.bi = 0; self.ii = 0; self.regs = regs; self.prev = -1; self.on_ret = on_ret

    def copy(self):
        n = Frame(self.f, dict(self.regs), self.on_ret); n.bi = self.bi; n.ii = self.ii; n.prev = self.prev
        return n


class State:
    __slots__ = ("frames", "mem", "mon", "trace", "nid", "scratch", "exc")

    def __init__(self):
        self.frames = []; self.mem = {}; self.mon = {}; self.trace = None; self.nid = 1; self.scratch = None; self.exc = None

    def fork(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]; s.mem = dict(self.mem); s.mon = dict(self.mon)
        s.trace = self.trace; s.nid = self.nid; s.scratch = self.scratch; s.exc = self.exc
        return s

    # memory -----------------------------------------------------------
    def new(self, size, tag, cells=None):
        i = self.nid; self.nid += 1
        self.mem[i] = Obj(size, tag, cells)
        return i

    def obj(self, oid):
        return self.mem.get(oid)

    def wobj(self, oid):
        o = self.mem[oid]
        n = Obj(o.size, o.tag, dict(o.cells), o.ro)
        self.mem[oid] = n
        return n

    def note(self, ins, what):
        self.trace = (self.trace, "%s:%s %s" % (ins.get("file", "?"), ins.get("line", "?"), what))

    def trace_list(self, n=40):
        out = []; t = self.trace
        while t and len(out) < n:
            out.append(t[1]); t = t[0]
        return out[::-1]


PREDS = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b}


def signed(v, bits):
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> (bits - 1) else v


def icmp_int(pred, a, b, bits):
    m = (1 << bits) - 1
    a &= m; b &= m
    if pred[0] == "s":
        a = signed(a, bits); b = signed(b, bits)
    p = pred[-2:] if pred not in ("eq", "ne") else pred
    return {"eq": a == b, "ne": a != b, "gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[p]


def binop_int(op, a, b, bits):
    m = (1 << bits) - 1
    a &= m; b &= m
    if op == "add": return (a + b) & m
    if op == "sub": return (a - b) & m
    if op == "mul": return (a * b) & m
    if op == "and": return a & b
    if op == "or": return a | b
    if op == "xor": return a ^ b
    if op == "shl": return (a << b) & m if b < bits else 0
    if op == "lshr": return a >> b if b < bits else 0
    if op == "ashr": return (signed(a, bits) >> min(b, bits - 1)) & m
    if op in ("udiv", "urem"):
        if b == 0: raise Unsupported("division by zero")
        return (a // b if op == "udiv" else a % b) & m
    if op in ("sdiv", "srem"):
        x, y = signed(a, bits), signed(b, bits)
        if y == 0: raise Unsupported("division by zero")
        q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
        return (q if op == "sdiv" else x - q * y) & m
    return None


class Domain:
    """default: no abstract values beyond TOP"""

    def icmp(self, eng, st, pred, a, b, bits):
        """-> list of (bool, refine or None)"""
        return [(True, None), (False, None)]

    def binop(self, eng, st, op, a, b, bits, ins):
        return TOP

    def cast(self, eng, st, op, v, sbits, dbits, ins):
        return TOP

    def switch(self, eng, st, v, cases, bits):
        """-> list of (case value or None, refine)"""
        return None

    def extern(self, eng, st, f, args, ins):
        return None

    def load_unknown(self, eng, st, ptr, size, ins):
        raise Unsupported("load through unknown pointer at %s" % eng.loc(ins))

    def load_undef(self, eng, st, ptr, size, ins):
        return UNDEF

    def store_unknown(self, eng, st, ptr, val, size, ins):
        raise Unsupported("store through unknown pointer at %s" % eng.loc(ins))

    def on_store(self, eng, st, ptr, val, size, ins):
        pass

    def on_load(self, eng, st, ptr, val, size, ins):
        return val

    def branch_top(self, eng, st, ins):
        pass

    def key(self, st, ren):
        return tuple(sorted((k, canon_val(v, ren)) for k, v in st.mon.items()))

    def late_key(self, st, ren):
        return None


def canon_val(v, ren):
    if isinstance(v, Ptr):
        return ("P", ren(v.obj), canon_val(v.off, ren) if isinstance(v.off, AV) else v.off)
    if isinstance(v, Agg):
        return ("A", tuple((o, s, canon_val(x, ren)) for o, s, x in v.cells))
    if isinstance(v, AV):
        return (type(v).__name__, v.canon(ren))
    if isinstance(v, tuple):
        return tuple(canon_val(x, ren) for x in v)
    if isinstance(v, frozenset):
        return frozenset(canon_val(x, ren) for x in v)
    return v


class Engine:
    def __init__(self, mod, dom=None, handlers=(), max_states=200000, max_time=600, catch=True):
        self.mod = mod; self.dom = dom or Domain(); self.max_states = max_states; self.max_time = max_time
        self.handlers = [(re.compile(p), h) for p, h in handlers]
        self.hcache = {}; self.nstates = 0; self.nsteps = 0; self.t0 = time.time()
        self.covered = set(); self.seenlocs = set(); self.ncalls = 0
        self.globs = {}; self.maxdepth = 60
        self.list_hooks = {}
        self.external_used = set()
        self.maxconst = None

    def loc(self, ins):
        return "%s:%s" % (ins.get("file", "?"), ins.get("line", "?"))

    # ---- values ---------------------------------------------------------
    def const(self, st, o):
        t = o[0]
        if t == "i": return o[1]
        if t == "I": return int(o[1])
        if t == "n": return 0
        if t == "u": return UNDEF
        if t == "g":
            return self.gptr(o[1], o[2])
        if t == "ceo":
            b = self.const(st, o[1])
            return Ptr(b.obj, b.off + o[2]) if isinstance(b, Ptr) else TOP
        if t == "z": return Agg(((0, o[1], 0),)) if o[1] > 0 else 0
        if t == "agg": return Agg(tuple((a, s, self.const(st, v)) for a, s, v in o[1]))
        if t == "f": return ("f", o[1])
        if t == "ce":
            if o[1] == "ptrtoint" or o[1] == "inttoptr":
                return self.const(st, o[2][0])
            if o[1] == "sub":
                return TOP
        if t == "m": return 0
        return TOP

    def gptr(self, name, off):
        return Ptr(("f" if name in self.mod.functions else "g", name), off)

    def val(self, st, fr, o):
        if o[0] == "r":
            try:
                return fr.regs[o[1]]
            except KeyError:
                return UNDEF
        return self.const(st, o)

    # ---- memory ---------------------------------------------------------
    def getobj(self, st, oid):
        o = st.mem.get(oid)
        if o is None and isinstance(oid, tuple) and oid[0] == "g":
            g = self.mod.globals.get(oid[1])
            if g is None:
                raise Unsupported("unknown global %s" % (oid,))
            o = Obj(g["size"], ("glob", oid[1]), {}, ro=g["const"])
            if "init" in g:
                v = self.const(st, g["init"])
                self._flat(o.cells, 0, g["size"], v)
            st.mem[oid] = o
        return o

    def _flat(self, cells, off, size, v):
        if isinstance(v, Agg):
            for a, s, x in v.cells:
                self._flat(cells, off + a, s, x)
        else:
            cells[off] = (size, v)

    def load(self, st, p, size, ins):
        if not isinstance(p, Ptr) or not isinstance(p.off, int):
            return self.dom.load_unknown(self, st, p, size, ins)
        o = self.getobj(st, p.obj)
        if o is None:
            raise Unsupported("load from dead object %r at %s" % (p, self.loc(ins)))
        if o.tag == "freed":
            raise Violation("use after free: load of freed memory", st, self.loc(ins), "memory")
        c = o.cells.get(p.off)
        if c is not None and c[0] == size:
            return c[1]
        parts = []
        for co, (cs, cv) in o.cells.items():
            if co < p.off + size and p.off < co + cs:
                if co <= p.off and co + cs >= p.off + size:
                    if cv == 0 and isinstance(cv, int): return 0
                    if isinstance(cv, int): return (cv >> (8 * (p.off - co))) & ((1 << (8 * size)) - 1)
                    if isinstance(cv, Agg):
                        sub = {}
                        self._flat(sub, co, cs, cv)
                        if p.off in sub and sub[p.off][0] == size: return sub[p.off][1]
                    return TOP
                if co >= p.off and co + cs <= p.off + size:
                    parts.append((co - p.off, cs, cv))
                else:
                    if isinstance(cv, int) and cv == 0: continue
                    return TOP
        if not parts:
            return self.dom.load_undef(self, st, p, size, ins)
        parts.sort()
        if all(isinstance(x[2], int) for x in parts):
            r = 0
            for a, s, v in parts:
                r |= (v & ((1 << (8 * s)) - 1)) << (8 * a)
            return r
        return Agg(tuple(parts))

    def store(self, st, p, val, size, ins):
        if not isinstance(p, Ptr) or not isinstance(p.off, int):
            return self.dom.store_unknown(self, st, p, val, size, ins)
        o = self.getobj(st, p.obj)
        if o is None:
            raise Unsupported("store to dead object at %s" % self.loc(ins))
        if o.tag == "freed":
            raise Violation("use after free: store to freed memory", st, self.loc(ins), "memory")
        o = st.wobj(p.obj)
        self.clear_range(o, p.off, size)
        if isinstance(val, Agg):
            self._flat(o.cells, p.off, size, val)
        else:
            o.cells[p.off] = (size, val)

    def clear_range(self, o, off, size):
        c = o.cells
        if off in c and c[off][0] == size:
            del c[off]; return
        for co in [k for k, (s, _) in c.items() if k < off + size and off < k + s]:
            cs, cv = c.pop(co)
            if isinstance(cv, int):
                if co < off:
                    c[co] = (off - co, cv & ((1 << (8 * (off - co))) - 1))
                if co + cs > off + size:
                    d = off + size - co
                    c[off + size] = (cs - d, cv >> (8 * d))

    def copy_range(self, st, dst, src, size, ins):
        if not (isinstance(dst, Ptr) and isinstance(src, Ptr) and isinstance(size, int)):
            r = self.dom.extern(self, st, None, [dst, src, size], ins)
            if r is None:
                raise Unsupported("memcpy with unknown operands at %s" % self.loc(ins))
            return
        so = self.getobj(st, src.obj); cells = []
        for co, (cs, cv) in so.cells.items():
            if co >= src.off and co + cs <= src.off + size:
                cells.append((co - src.off, cs, cv))
            elif co < src.off + size and src.off < co + cs:
                if isinstance(cv, int):
                    lo = max(co, src.off); hi = min(co + cs, src.off + size)
                    cells.append((lo - src.off, hi - lo, (cv >> (8 * (lo - co))) & ((1 << (8 * (hi - lo))) - 1)))
        self.getobj(st, dst.obj)
        do = st.wobj(dst.obj)
        self.clear_range(do, dst.off, size)
        for a, s, v in cells:
            do.cells[dst.off + a] = (s, v)

    # ---- canonical key ------------------------------------------------------
    def key(self, st):
        order = {}; queue = []
        def ren(oid):
            if isinstance(oid, tuple):
                if oid[0] == "f": return oid
                o = st.mem.get(oid)
                if o is None or o.ro: return oid
            if oid not in order:
                order[oid] = len(order); queue.append(oid)
            return order[oid]
        ren.st = st; ren.cur = []; ren.lazy = False; ren.tmap = {}
        fk = []
        n = len(st.frames)
        for k, fr in enumerate(st.frames):
            if k == n - 1 and fr.ii == 0 or k == n - 1 and fr.f.blocks[fr.bi][max(fr.ii - 1, 0)]["op"] == "phi":
                live = fr.f.live()[fr.bi]
                liver = set(live)
                for ins in fr.f.blocks[fr.bi]:
                    if ins["op"] != "phi": break
                    liver.add(ins["id"])
            else:
                liver = fr.f.live_after(fr.bi, fr.ii) if k < n - 1 else (fr.f.live_after(fr.bi, fr.ii) | set(uses(fr.f.blocks[fr.bi][fr.ii])))
            regs = tuple((r, canon_val(fr.regs[r], ren)) for r in sorted(liver) if r in fr.regs)
            fk.append((fr.f.name, fr.bi, fr.ii, regs))
        mk = self.dom.key(st, ren)
        sk = canon_val(st.scratch, ren) if st.scratch is not None else None
        ok = []
        i = 0
        while i < len(queue):
            oid = queue[i]; i += 1
            o = st.mem.get(oid)
            if o is None:
                ok.append(None); continue
            ok.append((o.tag if not isinstance(o.tag, tuple) else o.tag[0], tuple((a, c[0], canon_val(c[1], ren)) for a, c in sorted(o.cells.items()))))
        lk = self.dom.late_key(st, ren)
        # garbage collect
        if len(st.mem) > len(order) + 40:
            st.mem = {k: v for k, v in st.mem.items() if k in order or isinstance(k, tuple)}
        return (tuple(fk), mk, sk, tuple(ok), lk)

    def live_refs(self, st):
        """object ids reachable from live registers and the monitor (used by list models to fold)"""

    # ---- handlers -----------------------------------------------------------
    def handler(self, f):
        if f.name in self.hcache:
            return self.hcache[f.name]
        r = None
        for p, h in self.handlers:
            if p.search(f.dem):
                r = h; break
        self.hcache[f.name] = r
        return r

    # ---- running ------------------------------------------------------------
    def start(self, st, f, args):
        if not f.defined:
            raise AnalysisBroken("function %s has no body" % f.dem)
        regs = {a["id"]: v for a, v in zip(f.args, args)}
        st.frames.append(Frame(f, regs))
        self.covered.add(f.name)

    def run(self, init, seen=None, prune=None):
        """Explore to fixpoint. init: list of states with at least one frame (the base frame whose
        return ends the exploration). Yields (kind, state, value): kind in ret / throw / abort."""
        work = deque(init)
        base = [len(s.frames) - 1 for s in init]
        basen = base[0] if base else 0
        seen = set() if seen is None else seen
        while work:
            st = work.pop()
            while True:
                if time.time() - self.t0 > self.max_time:
                    raise Unsupported("time limit: %d states explored" % self.nstates)
                res = self.step_block(st, basen, seen, prune)
                if res is None:
                    break
                kind = res[0]
                if kind == "go":
                    continue
                if kind == "fork":
                    for s in res[1]:
                        work.append(s)
                    break
                yield res
                break

    def sync(self, st, f, args, keep=True):
        """run f to completion from st; returns list of (kind, state, value); the caller frames stay below."""
        s = st.fork()
        self.start(s, f, args)
        out = []
        for r in self.run([s]):
            out.append(r)
        return out

    def step_block(self, st, basen, seen, prune):
        fr = st.frames[-1]
        try:
            while True:
                ins = fr.f.blocks[fr.bi][fr.ii]
                self.nsteps += 1
                r = self.exec(st, fr, ins, basen)
                if r is None:
                    fr.ii += 1
                    continue
                k = r[0]
                if k == "jump":
                    if not self.jump(st, fr, r[1], seen):
                        return None
                    fr = st.frames[-1]
                    continue
                if k == "frame":        # frame pushed or popped
                    fr = st.frames[-1]
                    continue
                if k == "forks":
                    # list of (state, kind, payload) : payload "next" -> continue after instr, "jump" b
                    outs = []
                    for s, kk, pl in r[1]:
                        f2 = s.frames[-1]
                        if kk == "jump":
                            if not self.jump(s, f2, pl, seen):
                                continue
                        elif kk == "next":
                            f2.ii += 1
                        elif kk == "again":
                            key = self.key(s)
                            if key in seen:
                                continue
                            seen.add(key); self.nstates += 1
                        elif kk == "asis":
                            pass
                        elif kk == "done":
                            outs.append(("done", s, pl)); continue
                        outs.append(s)
                    done = [o for o in outs if isinstance(o, tuple)]
                    live = [o for o in outs if not isinstance(o, tuple)]
                    if done:
                        raise Unsupported("internal: done in forks")
                    return ("fork", live)
                return r
        except Infeasible:
            return None
        except Violation as v:
            if v.st is None: v.st = st
            if v.loc is None: v.loc = self.loc(ins)
            raise

    def jump(self, st, fr, b, seen):
        prev = fr.bi
        blk = fr.f.blocks[b]
        vals = []
        n = 0
        for ins in blk:
            if ins["op"] != "phi": break
            n += 1
            for v, pb in ins["in"]:
                if pb == prev:
                    vals.append((ins["id"], self.val(st, fr, v))); break
            else:
                raise Unsupported("phi without matching predecessor")
        fr.regs.update(vals)
        fr.prev = prev; fr.bi = b; fr.ii = n
        self.seenlocs.add((fr.f.name, b))
        if b in fr.f.merge_blocks():
            hook = getattr(self.dom, "widen", None)
            if hook: hook(self, st, fr, prev, b)
            if seen is not None:
                k = self.key(st)
                if k in seen:
                    return False
                seen.add(k)
                self.nstates += 1
                if self.nstates > self.max_states:
                    raise Unsupported("state limit reached in %s (%d states)" % (fr.f.dem, self.nstates))
        return True

    def as_bool(self, v):
        return None

    def exec(self, st, fr, ins, basen):
        op = ins["op"]
        m = getattr(self, "x_" + op.replace("?", "_"), None)
        if m is None:
            b = ins.get("ops")
            if op in BINOPS:
                a = self.val(st, fr, b[0]); c = self.val(st, fr, b[1])
                r = self.binop(st, op, a, c, ins.get("bits", 64), ins)
                if isinstance(r, Alts): return self.forked_value(st, fr, ins, r.outs)
                fr.regs[ins["id"]] = r
                return None
            if op in CASTS:
                v = self.val(st, fr, b[0])
                r = self.cast(st, op, v, ins.get("sbits", 64), ins.get("bits", 64), ins)
                if isinstance(r, Alts): return self.forked_value(st, fr, ins, r.outs)
                fr.regs[ins["id"]] = r
                return None
            raise Unsupported("instruction %s at %s" % (op, self.loc(ins)))
        return m(st, fr, ins, basen)

    def binop(self, st, op, a, b, bits, ins):
        if isinstance(a, int) and isinstance(b, int):
            r = binop_int(op, a, b, bits)
            if r is not None: return r
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op == "sub" and a.obj == b.obj and isinstance(a.off, int) and isinstance(b.off, int):
            return (a.off - b.off) & ((1 << bits) - 1)
        if isinstance(a, AV) or isinstance(b, AV):
            return self.dom.binop(self, st, op, a, b, bits, ins)
        if op == "and" and (a == 0 and isinstance(a, int) or b == 0 and isinstance(b, int)): return 0
        return self.dom.binop(self, st, op, a, b, bits, ins)

    def cast(self, st, op, v, sb, db, ins):
        if isinstance(v, int):
            if op in ("zext", "trunc"): return v & ((1 << min(sb, db)) - 1)
            if op == "sext": return signed(v, sb) & ((1 << db) - 1)
            if op in ("inttoptr", "ptrtoint", "bitcast"): return v
            return TOP
        if op in ("inttoptr", "ptrtoint", "bitcast") : return v
        if isinstance(v, AV) or v is TOP:
            return self.dom.cast(self, st, op, v, sb, db, ins)
        return v if v is UNDEF else TOP

    def x_alloca(self, st, fr, ins, basen):
        cnt = self.val(st, fr, ins["count"])
        oid = st.new(ins["asize"], "stack")
        fr.regs[ins["id"]] = Ptr(oid, 0)

    def x_load(self, st, fr, ins, basen):
        p = self.val(st, fr, ins["ops"][0])
        v = self.load(st, p, ins["size"], ins)
        v = self.dom.on_load(self, st, p, v, ins["size"], ins)
        fr.regs[ins["id"]] = v

    def x_store(self, st, fr, ins, basen):
        v = self.val(st, fr, ins["ops"][0]); p = self.val(st, fr, ins["ops"][1])
        self.dom.on_store(self, st, p, v, ins["ssize"], ins)
        self.store(st, p, v, ins["ssize"], ins)

    def x_getelementptr(self, st, fr, ins, basen):
        b = self.val(st, fr, ins["base"])
        if "gep" in self.__dict__: pass
        off = ins["off"]; sym = []
        for o, scale, bits in ins["var"]:
            v = self.val(st, fr, o)
            if isinstance(v, int): off += signed(v, bits) * scale
            else: sym.append((v, scale))
        if sym or not isinstance(b, Ptr):
            if not sym and off == 0 and not isinstance(b, Ptr):
                fr.regs[ins["id"]] = b; return
            g = getattr(self.dom, "gep", None)
            fr.regs[ins["id"]] = g(self, st, b, off, sym, ins) if g else TOP
            return
        if isinstance(b.off, int):
            fr.regs[ins["id"]] = Ptr(b.obj, b.off + off)
        else:
            g = getattr(self.dom, "gep", None)
            fr.regs[ins["id"]] = g(self, st, b, off, sym, ins) if g else TOP

    def icmp(self, st, pred, a, b, bits):
        if isinstance(a, int) and isinstance(b, int):
            return [(icmp_int(pred, a, b, bits), None)]
        pa, pb = isinstance(a, Ptr), isinstance(b, Ptr)
        if pa and pb and pred in ("eq", "ne"):
            if isinstance(a.off, int) and isinstance(b.off, int):
                e = a == b
                return [(e if pred == "eq" else not e, None)]
        if pa and pb and a.obj == b.obj and isinstance(a.off, int) and isinstance(b.off, int):
            return [(icmp_int(pred, a.off, b.off, 64), None)]
        if (pa and isinstance(b, int) and b == 0 or pb and isinstance(a, int) and a == 0):
            r = self.dom.icmp_null(self, st, pred, a, b) if hasattr(self.dom, "icmp_null") else None
            if r is not None: return r
            if pred in ("eq", "ne"): return [(pred == "ne", None)]
            if pred == "ugt": return [(pa, None)]
            if pred == "ult": return [(not pa, None)]
        return self.dom.icmp(self, st, pred, a, b, bits)

    def forked_value(self, st, fr, ins, outs):
        """outs: list of (value, refine)"""
        outs = list(outs)
        if not outs:
            raise Infeasible()
        if len(outs) == 1:
            v, rf = outs[0]
            if rf: rf(st)
            fr.regs[ins["id"]] = v
            return None
        res = []
        for k, (v, rf) in enumerate(outs):
            s = st.fork() if k < len(outs) - 1 else st
            s.frames[-1].regs[ins["id"]] = v
            s.note(ins, "-> %r" % (v,))
            try:
                if rf: rf(s)
            except Infeasible:
                continue
            res.append((s, "next", None))
        return ("forks", res)

    def x_icmp(self, st, fr, ins, basen):
        a = self.val(st, fr, ins["ops"][0]); b = self.val(st, fr, ins["ops"][1])
        if (a is UNDEF or b is UNDEF):
            self.dom.branch_top(self, st, ins)
        return self.forked_value(st, fr, ins, [(1 if t else 0, rf) for t, rf in self.icmp(st, ins["pred"], a, b, ins["cbits"])])

    def x_fcmp(self, st, fr, ins, basen):
        return self.forked_value(st, fr, ins, [(1, None), (0, None)])

    def x_select(self, st, fr, ins, basen):
        c = self.val(st, fr, ins["ops"][0])
        a = self.val(st, fr, ins["ops"][1]); b = self.val(st, fr, ins["ops"][2])
        if isinstance(c, int):
            fr.regs[ins["id"]] = a if c & 1 else b; return None
        if a == b:
            fr.regs[ins["id"]] = a; return None
        return self.forked_value(st, fr, ins, [((a if t else b), rf) for t, rf in self.truth(st, c)])

    def truth(self, st, c):
        h = getattr(self.dom, "truth", None)
        if h and isinstance(c, AV):
            return h(self, st, c)
        return [(True, None), (False, None)]

    def x_br(self, st, fr, ins, basen):
        ops = ins["ops"]
        if len(ops) == 1:
            return ("jump", ops[0][1])
        c = self.val(st, fr, ops[0])
        # LLVM order: cond, false, true
        fb, tb = ops[1][1], ops[2][1]
        if isinstance(c, int):
            return ("jump", tb if c & 1 else fb)
        self.dom.branch_top(self, st, ins) if c is UNDEF else None
        res = []
        for t, rf in self.truth(st, c):
            s = st.fork()
            s.note(ins, "branch %s" % t)
            try:
                if rf: rf(s)
            except Infeasible:
                continue
            res.append((s, "jump", tb if t else fb))
        return ("forks", res)

    def x_switch(self, st, fr, ins, basen):
        v = self.val(st, fr, ins["v"])
        if isinstance(v, int):
            for c, b in ins["cases"]:
                if c == v & ((1 << ins["cbits"]) - 1): return ("jump", b)
            return ("jump", ins["def"])
        m = (1 << ins["cbits"]) - 1
        r = self.dom.switch(self, st, v, [c & m for c, _ in ins["cases"]], ins["cbits"])
        if r is None:
            r = [(c & m, None) for c, _ in ins["cases"]] + [(None, None)]
        cm = {c & m: b for c, b in ins["cases"]}
        res = []
        for c, rf in r:
            s = st.fork()
            s.note(ins, "case %r" % (c,))
            try:
                if rf: rf(s)
            except Infeasible:
                continue
            res.append((s, "jump", ins["def"] if c is None else cm[c]))
        return ("forks", res)

    def x_ret(self, st, fr, ins, basen):
        v = self.val(st, fr, ins["ops"][0]) if ins.get("ops") else None
        return self.do_return(st, v, basen)

    def do_return(self, st, v, basen):
        fr = st.frames.pop()
        # stack slots of fr die
        if len(st.frames) <= basen:
            if fr.on_ret: fr.on_ret(st, v)
            return ("ret", st, v)
        c = st.frames[-1]
        ins = c.f.blocks[c.bi][c.ii]
        if fr.on_ret:
            v = fr.on_ret(st, v)
        if "id" in ins:
            c.regs[ins["id"]] = v
        if ins["op"] == "invoke":
            return self._goto(st, c, ins["normal"])
        c.ii += 1
        return ("frame",)

    def _goto(self, st, fr, b):
        return ("forks", [(st, "jump", b)])

    def finish_call(self, st, fr, ins, v):
        """a handled call returned v in this state"""
        if "id" in ins:
            fr.regs[ins["id"]] = v
        if ins["op"] == "invoke":
            return ("jump", ins["normal"])
        return None

    def x_call(self, st, fr, ins, basen):
        callee = ins["callee"]
        if ins.get("asm"):
            raise Unsupported("inline asm at %s" % self.loc(ins))
        if callee[0] == "g" :
            name = callee[1]
        else:
            p = self.val(st, fr, callee)
            if isinstance(p, Ptr) and isinstance(p.obj, tuple) and p.obj[0] == "f":
                name = p.obj[1]
            else:
                h = getattr(self.dom, "indirect", None)
                r = h(self, st, fr, p, [self.val(st, fr, a) for a in ins["args"]], ins) if h else None
                if r is None:
                    raise Unsupported("indirect call through %r at %s in %s" % (p, self.loc(ins), fr.f.dem))
                return self.apply_result(st, fr, ins, r, basen)
        f = self.mod.functions[name]
        args = [self.val(st, fr, a) for a in ins["args"]]
        return self.do_call(st, fr, ins, f, args, basen)
    x_invoke = x_call

    def do_call(self, st, fr, ins, f, args, basen):
        self.ncalls += 1
        h = self.handler(f)
        if h is not None:
            r = h(self, st, f, args, ins)
            if r is not NotImplemented:
                return self.apply_result(st, fr, ins, r, basen)
        b = BUILTIN.get(f.name)
        if b is None and f.name.startswith("llvm."):
            for p, hh in BUILTIN_PREFIX:
                if f.name.startswith(p): b = hh; break
        if b is not None:
            r = b(self, st, f, args, ins)
            return self.apply_result(st, fr, ins, r, basen)
        if f.defined:
            if len(st.frames) - basen > self.maxdepth:
                raise Unsupported("call depth limit in %s" % f.dem)
            if any(x.f is f for x in st.frames[-8:]) and sum(1 for x in st.frames if x.f is f) > 3:
                hr = getattr(self.dom, "recursion", None)
                if hr:
                    return self.apply_result(st, fr, ins, hr(self, st, f, args, ins), basen)
                raise Unsupported("recursion into %s" % f.dem)
            # byval args: copy
            for i, at in enumerate(ins["at"]):
                if at[3] and isinstance(args[i], Ptr):
                    oid = st.new(at[3], "stack")
                    self.copy_range(st, Ptr(oid, 0), args[i], at[3], ins)
                    args[i] = Ptr(oid, 0)
            self.start(st, f, args)
            return ("frame",)
        r = self.dom.extern(self, st, f, args, ins)
        if r is None:
            raise Unsupported("external function %s called at %s in %s" % (f.dem, self.loc(ins), fr.f.dem))
        self.external_used.add(f.dem)
        return self.apply_result(st, fr, ins, r, basen)

    def apply_result(self, st, fr, ins, r, basen):
        """r: ('val', v) | ('throw', type) | ('alts', [(state, result)]) | ('again',[states]) | ('end', kind) | ('frame',)"""
        k = r[0]
        if k == "val":
            return self.finish_call(st, st.frames[-1], ins, r[1])
        if k == "throw":
            return self.do_throw(st, r[1], ins, basen)
        if k == "end":
            return (r[1], st, r[2] if len(r) > 2 else None)
        if k == "frame":
            return r
        if k == "call":
            f, args = r[1], r[2]
            fn = r[3] if len(r) > 3 else None
            if not f.defined: raise Unsupported("no body for %s" % f.dem)
            self.start(st, f, args)
            if fn: st.frames[-1].on_ret = fn
            return ("frame",)
        if k == "alts":
            res = []
            for s, rr in r[1]:
                if rr[0] == "val":
                    f2 = s.frames[-1]
                    if "id" in ins: f2.regs[ins["id"]] = rr[1]
                    if ins["op"] == "invoke": res.append((s, "jump", ins["normal"]))
                    else: res.append((s, "next", None))
                elif rr[0] == "throw":
                    x = self.do_throw(s, rr[1], ins, basen)
                    if x[0] == "forks": res.extend(x[1])
                    elif x[0] == "throw":
                        self.pending.append(x)
                elif rr[0] == "again":
                    res.append((s, "again", None))
                else:
                    raise Unsupported("alts result %r" % (rr,))
            return ("forks", res)
        raise Unsupported("handler result %r" % (r,))

    pending = []

    def do_throw(self, st, ty, ins, basen):
        h = getattr(self.dom, "on_throw", None)
        if h: h(self, st, ty, ins)
        cur = ins
        while True:
            fr = st.frames[-1]
            cur = fr.f.blocks[fr.bi][fr.ii]
            if cur["op"] == "invoke":
                st.exc = ty
                return ("forks", [(st, "jump", cur["unwind"])])
            st.frames.pop()
            if len(st.frames) <= basen:
                st.exc = ty
                return ("throw", st, ty)

    def x_landingpad(self, st, fr, ins, basen):
        oid = st.new(64, "exc")
        st.mem[oid].cells[0] = (8, TOP)
        fr.regs[ins["id"]] = Agg(((0, 8, Ptr(oid, 0)), (8, 4, ExcSel(st.exc))))

    def x_resume(self, st, fr, ins, basen):
        ty = st.exc
        st.frames.pop()
        if len(st.frames) <= basen:
            return ("throw", st, ty)
        return self.do_throw(st, ty, ins, basen)

    def x_extractvalue(self, st, fr, ins, basen):
        v = self.val(st, fr, ins["ops"][0])
        if isinstance(v, Agg):
            d = {}
            self._flat(d, 0, 0, v)
            c = d.get(ins["xoff"])
            fr.regs[ins["id"]] = c[1] if c else UNDEF
        else:
            fr.regs[ins["id"]] = TOP if v is not UNDEF else UNDEF

    def x_insertvalue(self, st, fr, ins, basen):
        a = self.val(st, fr, ins["ops"][0]); v = self.val(st, fr, ins["ops"][1])
        cells = list(a.cells) if isinstance(a, Agg) else []
        cells = [c for c in cells if c[0] != ins["xoff"]] + [(ins["xoff"], ins["xsize"], v)]
        fr.regs[ins["id"]] = Agg(tuple(sorted(cells, key=lambda c: c[0])))

    def x_unreachable(self, st, fr, ins, basen):
        return ("abort", st, "unreachable")

    def x_freeze(self, st, fr, ins, basen):
        fr.regs[ins["id"]] = self.val(st, fr, ins["ops"][0])

    def x_fence(self, st, fr, ins, basen):
        return None

    def x_atomicrmw(self, st, fr, ins, basen):
        p = self.val(st, fr, ins["ops"][0]); v = self.val(st, fr, ins["ops"][1])
        old = self.load(st, p, ins["size"], ins)
        opn = ins["rmw"]
        new = {"xchg": lambda: v}.get(opn, lambda: self.binop(st, opn, old, v, ins["bits"], ins))()
        self.store(st, p, new, ins["size"], ins)
        fr.regs[ins["id"]] = old


class ExcSel(AV):
    __slots__ = ("ty",)
    def __init__(self, ty): self.ty = ty
    def canon(self, ren): return self.ty
    def __eq__(self, o): return isinstance(o, ExcSel) and o.ty == self.ty
    def __hash__(self): return hash(("ExcSel", self.ty))


BINOPS = {"add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem", "fadd", "fsub", "fmul", "fdiv"}
CASTS = {"zext", "sext", "trunc", "inttoptr", "ptrtoint", "bitcast", "fptosi", "sitofp", "uitofp", "fpext", "fptrunc", "fptoui"}


# ---- builtins --------------------------------------------------------------
def b_void(E, st, f, a, ins): return ("val", None)


def b_new(E, st, f, a, ins):
    oid = st.new(a[0] if isinstance(a[0], int) else None, "heap")
    return ("val", Ptr(oid, 0))


def b_delete(E, st, f, a, ins):
    p = a[0]
    h = getattr(E.dom, "on_delete", None)
    if h: h(E, st, p, ins)
    if isinstance(p, Ptr) and p.off == 0 and not isinstance(p.obj, tuple) and p.obj in st.mem:
        if st.mem[p.obj].tag == "freed":
            raise Violation("double free", st, E.loc(ins), "memory")
        st.mem[p.obj] = Obj(0, "freed")
    return ("val", None)


def b_memcpy(E, st, f, a, ins):
    E.copy_range(st, a[0], a[1], a[2], ins)
    return ("val", a[0])


def b_memset(E, st, f, a, ins):
    if isinstance(a[0], Ptr) and isinstance(a[2], int):
        o = E.getobj(st, a[0].obj); o = st.wobj(a[0].obj)
        E.clear_range(o, a[0].off, a[2])
        if a[2]:
            v = a[1]
            if isinstance(v, int) and v:
                r = 0
                for k in range(a[2]): r |= (v & 255) << (8 * k)
                v = r
            o.cells[a[0].off] = (a[2], v)
        return ("val", a[0])
    raise Unsupported("memset at %s" % E.loc(ins))


def b_lifetime_end(E, st, f, a, ins):
    p = a[1]
    if isinstance(p, Ptr) and p.obj in st.mem and not isinstance(p.obj, tuple):
        o = st.wobj(p.obj); o.cells.clear()
    return ("val", None)


def b_throw(E, st, f, a, ins):
    ti = a[1]
    name = E.mod.globals.get(ti.obj[1], {}).get("dem", str(ti)) if isinstance(ti, Ptr) else str(ti)
    return ("throw", name.replace("typeinfo for ", ""))


def b_abort(E, st, f, a, ins):
    return ("end", "abort", f.dem)


def b_exc_alloc(E, st, f, a, ins):
    return ("val", Ptr(st.new(a[0], "exc"), 0))


def b_typeid(E, st, f, a, ins):
    ti = a[0]
    name = E.mod.globals.get(ti.obj[1], {}).get("dem", "?").replace("typeinfo for ", "")
    return ("val", ExcSel(name))


def b_begin_catch(E, st, f, a, ins):
    st.exc = None
    return ("val", a[0])


def b_rethrow(E, st, f, a, ins):
    return ("throw", st.exc or "rethrown")


def b_minmax(op):
    def h(E, st, f, a, ins):
        if all(isinstance(x, int) for x in a[:2]):
            b = ins["bits"]
            return ("val", (max if "max" in op else min)(a[0], a[1]) if op[0] == "u" else (max if "max" in op else min)(a[0], a[1], key=lambda v: signed(v, b)))
        return ("val", TOP)
    return h


def b_expect(E, st, f, a, ins):
    return ("val", a[0])


BUILTIN = {
    "_Znwm": b_new, "_Znam": b_new, "_ZnwmRKSt9nothrow_t": b_new, "malloc": b_new,
    "_ZdlPv": b_delete, "_ZdaPv": b_delete, "_ZdlPvm": b_delete, "_ZdaPvm": b_delete, "free": b_delete,
    "memcpy": b_memcpy, "memmove": b_memcpy, "memset": b_memset,
    "__cxa_throw": b_throw, "__cxa_allocate_exception": b_exc_alloc, "__cxa_free_exception": b_void,
    "__cxa_begin_catch": b_begin_catch, "__cxa_end_catch": b_void, "__cxa_rethrow": b_rethrow,
    "abort": b_abort, "__assert_fail": b_abort, "_ZSt9terminatev": b_abort, "__clang_call_terminate": b_abort,
    "__cxa_pure_virtual": b_abort, "__cxa_guard_release": b_void, "exit": b_abort,
}
def b_ctlz(E, st, f, a, ins):
    bits = int(f.name.rsplit(".i", 1)[1])
    if not isinstance(a[0], int): return ("val", TOP)
    return ("val", bits - (a[0] & ((1 << bits) - 1)).bit_length())


def known_bytes(st, p, n):
    """n bytes of memory as a list, or None if any of them is not a known number"""
    o = st.mem.get(p.obj)
    if o is None: return None
    out = [None] * n
    for off, c in o.cells.items():
        if off + c[0] <= p.off or off >= p.off + n: continue
        if not isinstance(c[1], int): return None
        for k in range(c[0]):
            if 0 <= off + k - p.off < n: out[off + k - p.off] = (c[1] >> (8 * k)) & 255
    return None if None in out else out


def b_memcmp(E, st, f, a, ins):
    n = a[2]
    if not isinstance(n, int): return ("val", TOP)
    if n == 0 or a[0] == a[1]: return ("val", 0)
    if not (isinstance(a[0], Ptr) and isinstance(a[1], Ptr)): return ("val", TOP)
    x, y = known_bytes(st, a[0], n), known_bytes(st, a[1], n)
    if x is None or y is None: return ("val", TOP)
    return ("val", 0 if x == y else 1 if x > y else 0xffffffff)


BUILTIN.update({"memcmp": b_memcmp, "bcmp": b_memcmp})
BUILTIN_PREFIX = [
    ("llvm.ctlz", b_ctlz),
    ("llvm.lifetime.start", b_void), ("llvm.lifetime.end", b_lifetime_end), ("llvm.memcpy", b_memcpy), ("llvm.memmove", b_memcpy),
    ("llvm.memset", b_memset), ("llvm.eh.typeid", b_typeid), ("llvm.assume", b_void), ("llvm.expect", b_expect), ("llvm.launder", b_expect),
    ("llvm.trap", b_abort), ("llvm.dbg", b_void), ("llvm.invariant", b_void), ("llvm.experimental.noalias", b_void), ("llvm.stacksave", b_void), ("llvm.stackrestore", b_void),
    ("llvm.umax", b_minmax("umax")), ("llvm.umin", b_minmax("umin")), ("llvm.smax", b_minmax("smax")), ("llvm.smin", b_minmax("smin")),
]
