"""Bank protocol of the runners: abstract execution of the worker bodies.

One arbitrary bank (the star) is tracked exactly, every other bank only by its position
relative to it; every index is abstracted to that position.  Loads of a bank's state
return any state the other threads may have put there.  The monitor follows the
star's ownership, its number, and the semaphore, and reports every step that the
protocol forbids.  Because the star is arbitrary, what holds for it holds for every bank.
"""
import ir
from ir import AnalysisBroken
from engine import *
from init import Flow, FULL

B = "Centaurus::BaseRunner"


class Ix(AV):
    """int: rel N(-1) L(below the star) A(the star) H(above) E(bank count) X(beyond) U(any); z: 0 / + / ?"""
    __slots__ = ("rel", "z")
    def __init__(self, rel, z="+"): self.rel = rel; self.z = z
    def canon(self, ren): return (self.rel, self.z)
    def __eq__(self, o): return isinstance(o, Ix) and (o.rel, o.z) == (self.rel, self.z)
    def __hash__(self): return hash(("Ix", self.rel, self.z))
    def __repr__(self): return "idx<%s%s>" % (self.rel, self.z)


class Sym(AV):
    """named symbolic value"""
    __slots__ = ("n",)
    def __init__(self, *n): self.n = n
    def canon(self, ren): return self.n
    def __eq__(self, o): return isinstance(o, Sym) and o.n == self.n
    def __hash__(self): return hash(("Sym", self.n))
    def __repr__(self): return "sym<%s>" % (self.n,)


class Cn(AV):
    """number of hand-overs so far plus d"""
    __slots__ = ("d",)
    def __init__(self, d): self.d = d
    def canon(self, ren): return self.d
    def __eq__(self, o): return isinstance(o, Cn) and o.d == self.d
    def __hash__(self): return hash(("Cn", self.d))
    def __repr__(self): return "count%+d" % self.d


class Off(AV):
    """byte offset in the bank table: entry position, byte within the entry"""
    __slots__ = ("ix", "f")
    def __init__(self, ix, f): self.ix = ix; self.f = f
    def canon(self, ren): return (self.ix.canon(ren), self.f)
    def __eq__(self, o): return isinstance(o, Off) and (o.ix, o.f) == (self.ix, self.f)
    def __hash__(self): return hash(("Off", self.ix, self.f))
    def __repr__(self): return "entry<%s>+%s" % (self.ix, self.f)


class MOff(AV):
    """position in the main window: bank, exact = at the start of the bank"""
    __slots__ = ("ix", "exact")
    def __init__(self, ix, exact): self.ix = ix; self.exact = exact
    def canon(self, ren): return (self.ix.canon(ren), self.exact)
    def __eq__(self, o): return isinstance(o, MOff) and (o.ix, o.exact) == (self.ix, self.exact)
    def __hash__(self): return hash(("MOff", self.ix, self.exact))
    def __repr__(self): return "bank<%s>%s" % (self.ix, "" if self.exact else "+")


SUB = ("g", "@sub"); MAIN = ("g", "@main")
ACQ = ("acquire", "acq_rel", "seq_cst"); REL = ("release", "acq_rel", "seq_cst")
U = Ix("U", "?")


class Dom(Domain):
    def __init__(self, role, S, esz, fnum, fstate, dry=False, world=None):
        self.role = role; self.S = S; self.esz = esz; self.fnum = fnum; self.fstate = fstate; self.dry = dry; self.world = world
        self.acquired = False; self.table = {}; self.active = []; self.used = set(); self.events = 0; self.viol = {}; self.facts = set()
        self.thisobj = None

    # ---- reporting
    def bad(self, st, rule, msg, eng, ins):
        k = rule
        if k not in self.viol: self.viol[k] = (msg, eng.loc(ins) if ins is not None else "", st.trace_list(25))
        raise Infeasible()

    # ---- indices
    def zero(self, st): return Ix("A", "0") if st.mon["zero"] else Ix("L", "0")

    def ix(self, st, v):
        if isinstance(v, Ix): return v
        if isinstance(v, int):
            v = signed(v, 32)
            if v == 0: return self.zero(st)
            if v == -1: return Ix("N")
        if isinstance(v, Sym) and v.n == ("n", 0): return Ix("E")
        if isinstance(v, Sym) and v.n == ("n", -1): return Ix("A", "0" if st.mon["zero"] else "+") if st.mon["last"] else Ix("H")
        return U

    def step(self, st, x, d):
        """-> list of Ix"""
        r = x.rel
        if d == 0: return [x]
        if r == "U": return [Ix("U", "+" if d > 0 and x.z in "0+" else "?")]
        az = "0" if st.mon["zero"] else "+"
        out = []
        if d > 0:
            if r == "N": out = [self.zero(st)]
            elif r == "L": out = [Ix("L"), Ix("A", az)]
            elif r == "A": out = [Ix("E")] if st.mon["last"] else [Ix("H")]
            elif r == "H": out = [Ix("H"), Ix("E")]
            else: out = [Ix("X")]
        else:
            if r == "N" or r == "Y": out = [Ix("Y")]
            elif r == "L": out = ([Ix("N")] if x.z != "+" else []) + ([Ix("L", "+"), Ix("L", "0")] if x.z != "0" else [])
            elif r == "A": out = [Ix("N")] if st.mon["zero"] else [Ix("L", "0"), Ix("L", "+")]
            elif r == "H": out = [Ix("H"), Ix("A", az)]
            elif r == "E": out = [Ix("A", az)] if st.mon["last"] else [Ix("H")]
            else: out = [Ix("X"), Ix("E")]
        for _ in range(abs(d) - 1):
            nx = []
            for o in out: nx += [y for y in self.step(st, o, 1 if d > 0 else -1) if y not in nx]
            out = nx
        return out

    ORD = {"Y": -2, "N": -1, "L": 0, "A": 1, "H": 2, "E": 3, "X": 4}

    def cmp3(self, st, a, b):
        """possible signs of a-b"""
        if a.rel == "U" or b.rel == "U":
            for x, y, sg in ((a, b, 1), (b, a, -1)):
                if y.z == "0" and y.rel in "LA" :
                    if x.z == "0": return (0,)
                    if x.z == "+": return (sg,)
            return (-1, 0, 1)
        x, y = self.ORD[a.rel], self.ORD[b.rel]
        if x != y: return ((x > y) - (x < y),)
        if a.rel in "NAE": return (0,)
        if a.rel == "L":
            if a.z == "0" and b.z == "0": return (0,)
            if a.z == "0" and b.z == "+": return (-1,)
            if b.z == "0" and a.z == "+": return (1,)
        return (-1, 0, 1)

    def norm(self, st, v, other):
        return self.ix(st, v)

    def icmp(self, eng, st, pred, a, b, bits):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and isinstance(a.off, AV) and isinstance(b.off, AV) and a.obj == b.obj == SUB:
            a, b = a.off.ix, b.off.ix
        if isinstance(a, (Ptr,)) or isinstance(b, Ptr):
            return [(True, None), (False, None)]
        if isinstance(a, Sym) and a.n[0] == "num" or isinstance(b, Sym) and b.n[0] == "num":
            return self.numcmp(eng, st, pred, a, b)
        if isinstance(a, Sym) and a.n[0] == "fn" and b == 0 or isinstance(b, Sym) and b.n[0] == "fn" and a == 0:
            return [(pred == "ne", None)]
        if isinstance(a, Cn) and isinstance(b, Cn):
            return [(icmp_int(pred, a.d, b.d, 32), None)]
        if b == Sym("words") and (isinstance(a, int) and a == 0 or isinstance(a, Ix) and a.z == "0") and pred[-2:] in ("lt", "ge"):
            return [(pred[-2:] == "lt", None)]
        isix = lambda v: isinstance(v, Ix) or isinstance(v, Sym) and v.n[0] == "n" or isinstance(v, int) and signed(v, 32) in (0, -1)
        if isix(a) and isix(b) and not (isinstance(a, int) and isinstance(b, int)):
            x, y = self.ix(st, a), self.ix(st, b)
            if pred[0] == "u" and pred not in ("eq", "ne"):
                # as unsigned, -1 is the largest value
                up = lambda v: Ix("X") if v.rel in "NY" else v
                x, y = up(x), up(y)
            p = pred[-2:] if pred not in ("eq", "ne") else pred
            res = set()
            for s in self.cmp3(st, x, y):
                res.add({"eq": s == 0, "ne": s != 0, "gt": s > 0, "ge": s >= 0, "lt": s < 0, "le": s <= 0}[p])
            return [(r, None) for r in sorted(res)]
        return [(True, None), (False, None)]

    def numcmp(self, eng, st, pred, a, b):
        n, o = (a, b) if isinstance(a, Sym) and a.n[0] == "num" else (b, a)
        if n.n[1] == "star" and pred in ("eq", "ne") and self.role == 3:
            good = (o == st.mon["P"] if isinstance(o, int) else o == Cn(0))
            def rf(s, good=good, o=o):
                if s.mon["obs"] == self.S["Stage2_Unlocked"]: s.mon["numeq"] = 1 if good else 2
            def rn(s):
                pass
            return [(pred == "eq", rf), (pred == "ne", rn)]
        return [(True, None), (False, None)]

    def binop(self, eng, st, op, a, b, bits, ins):
        if isinstance(a, int) and not isinstance(b, int) and op in ("add", "mul"): a, b = b, a
        if op in ("udiv", "lshr") and isinstance(a, Sym) and a.n == ("bsize",): return Sym("words")
        if isinstance(a, Sym) and a.n[0] == "ent" and isinstance(b, int) and (op in ("sdiv", "udiv") and b == self.esz or op in ("ashr", "lshr") and 1 << b == self.esz): return a.n[1]
        if isinstance(a, Ix) and isinstance(b, int):
            d = signed(b, bits)
            if op == "sub": d = -d; op = "add"
            if op == "add" and -2 <= d <= 2:
                return Alts([(x, None) for x in self.step(st, a, d)])
            if op == "add": return U
            if op == "mul" and d == self.esz: return Sym("ent", a)
        if isinstance(a, Sym) and a.n[0] == "n" and isinstance(b, int) and op in ("add", "sub"):
            d = signed(b, bits) * (1 if op == "add" else -1) + a.n[1]
            return Sym("n", d) if abs(d) < 3 else TOP
        if isinstance(a, Cn) and isinstance(b, int) and op in ("add", "sub"):
            d = a.d + signed(b, bits) * (1 if op == "add" else -1)
            return Cn(d) if abs(d) <= 3 else Sym("off")
        if op == "mul":
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Sym) and x.n == ("bsize",):
                    if isinstance(y, (Ix, int)) : return Sym("bank", self.ix(st, y))
                    if isinstance(y, Sym) and y.n[0] == "n": return Sym("bank", self.ix(st, y))
        if op == "urem" or op == "srem":
            if isinstance(a, Ix) and isinstance(b, Sym) and b.n == ("n", 0):
                if a.rel in "LAH": return a
                if a.rel == "E": return self.zero(st)
        return TOP

    def cast(self, eng, st, op, v, sb, db, ins):
        if isinstance(v, (Ix, Sym, Cn)) and db > 8: return v
        return TOP

    def switch(self, eng, st, v, cases, bits): return None
    def recursion(self, eng, st, f, args, ins): raise Unsupported("recursion into %s" % f.dem)

    def widen(self, eng, st, fr, prev, b):
        # counting registers of loops start at 0 or -1: abstract them
        f = fr.f
        blk = f.blocks[b]
        cache = self.__dict__.setdefault("ind", {})
        if (f.name, b) not in cache:
            ids = []
            for ins in blk:
                if ins["op"] != "phi": break
                if ins.get("bits") not in (32, 64): continue
                if self.inductive(f, ins): ids.append(ins["id"])
            cache[(f.name, b)] = ids
        for i in cache[(f.name, b)]:
            v = fr.regs.get(i)
            cnt = self.__dict__.setdefault("countdown", set())
            if isinstance(v, Sym) and v.n[0] == "n":
                cnt.add((f.name, i)); fr.regs[i] = v = self.ix(st, v)
            if not isinstance(v, (int, Ix)): continue
            bank = (f.name, i) in cnt or self.bankloop(st, fr, i)
            if isinstance(v, int):
                w = signed(v, 32)
                if bank: fr.regs[i] = self.ix(st, v) if w in (0, -1) else U
                else: fr.regs[i] = Ix("U", "0" if w == 0 else "+" if w > 0 else "?")
            elif not bank and v.rel != "U": fr.regs[i] = Ix("U", v.z if v.rel not in "NY" else "?")

    def bankloop(self, st, fr, i):
        """register i of this frame is compared with the number of banks"""
        f = fr.f
        cache = self.__dict__.setdefault("cmps", {})
        if (f.name, i) not in cache:
            d = self.defs[f.name]; reach = {i}; ch = True
            while ch:
                ch = False
                for r, ins in d.items():
                    if r not in reach and ins["op"] in ("add", "sub", "sext", "zext", "trunc", "phi", "freeze"):
                        ops = [v for v, _ in ins["in"]] if ins["op"] == "phi" else ins["ops"]
                        if any(o[0] == "r" and o[1] in reach for o in ops): reach.add(r); ch = True
            others = []; hit = False
            for ins in d.values():
                if ins["op"] in ("icmp", "urem", "srem"):
                    o = ins["ops"]
                    for x, y in ((o[0], o[1]), (o[1], o[0])):
                        if x[0] == "r" and x[1] in reach and y[0] == "r" and y[1] not in reach:
                            r = self.origin(f, y[1])
                            if r is None: others.append(y[1])
                            else: hit = hit or r
            cache[(f.name, i)] = (hit, others)
        hit, others = cache[(f.name, i)]
        return hit or any(isinstance(fr.regs.get(o), Sym) and fr.regs[o].n[0] == "n" for o in others)

    def origin(self, f, r):
        """True: register r is the member holding the number of banks (plus a constant)"""
        d = self.defs[f.name]
        for _ in range(6):
            ins = d.get(r)
            if ins is None: return None
            if ins["op"] in ("sext", "zext", "trunc", "add", "sub", "freeze"):
                rs = [o[1] for o in ins["ops"] if o[0] == "r"]
                if len(rs) != 1: return None
                r = rs[0]; continue
            if ins["op"] == "load" and ins["ops"][0][0] == "r":
                g = d.get(ins["ops"][0][1])
                return True if g is not None and g["op"] == "getelementptr" and not g["var"] and g["off"] == self.numoff else None
            return None
        return None

    def inductive(self, f, phi):
        """phi is incremented (through adds, selects and phis) along a cycle"""
        defs = self.__dict__.setdefault("defs", {})
        if f.name not in defs:
            defs[f.name] = {i["id"]: i for blk in f.blocks for i in blk if "id" in i}
        d = defs[f.name]; seen = set(); work = [v[1] for v, _ in phi["in"] if v[0] == "r"]; add = False
        while work:
            r = work.pop()
            if r in seen: continue
            seen.add(r)
            i = d.get(r)
            if i is None: continue
            if i["op"] in ("add", "sub"): work += [o[1] for o in i["ops"] if o[0] == "r"]
            elif i["op"] in ("phi",): work += [v[1] for v, _ in i["in"] if v[0] == "r"]
            elif i["op"] in ("sext", "zext", "trunc", "select"): work += [o[1] for o in i["ops"] if o[0] == "r"]
            else: continue
        return phi["id"] in seen

    # ---- addresses
    def gep(self, eng, st, b, off, sym, ins):
        if not isinstance(b, Ptr): return TOP
        if b.obj == SUB:
            o = b.off if isinstance(b.off, Off) else Off(self.zero(st), b.off)
            f = o.f
            tot = off + (f if isinstance(f, int) else 0)
            d, f2 = divmod(tot, self.esz)
            base = o.ix
            alts = [base]
            for v, sc in sym:
                if isinstance(v, Sym) and v.n[0] == "ent" and sc == 1: v = v.n[1]; sc = self.esz
                if sc != self.esz: return Ptr(SUB, Off(U, 0))
                if not isinstance(v, int) and base == self.zero(st):
                    alts = [self.ix(st, v)]
                else: alts = [U]
            out = []
            for a in alts: out += [x for x in self.step(st, a, d) if x not in out]
            vals = [(Ptr(SUB, Off(x, f2)), None) for x in out]
            return vals[0][0] if len(vals) == 1 else Alts(vals)
        if b.obj == MAIN:
            o = b.off if isinstance(b.off, MOff) else MOff(self.zero(st), b.off == 0)
            ix = o.ix; exact = o.exact and off == 0
            for v, sc in sym:
                if isinstance(v, Sym) and v.n[0] == "bank" and sc == 1 and o.exact and ix == self.zero(st) and len(sym) == 1: ix = v.n[1]
                else: exact = False
            return Ptr(MAIN, MOff(ix, exact))
        return TOP

    def norm_sub(self, st, p):
        return p.off if isinstance(p.off, Off) else Off(*( (self.zero(st), p.off) if p.off < self.esz else (self.step(st, self.zero(st), p.off // self.esz)[0], p.off % self.esz)))

    # ---- shared memory
    def access_main(self, eng, st, p, ins, what):
        o = p.off if isinstance(p.off, MOff) else MOff(self.zero(st), p.off == 0)
        if o.ix.rel == "A":
            self.facts.add("data")
            if st.mon["own"] is None:
                self.bad(st, "data-unowned", "a thread %s the contents of a bank it does not hold" % what, eng, ins)
        elif o.ix.rel in "NEXYU":
            self.bad(st, "data-range", "bank contents addressed outside the bank table (%s)" % (o,), eng, ins)

    def load_unknown(self, eng, st, p, size, ins):
        if isinstance(p, Ptr) and p.obj == MAIN:
            self.access_main(eng, st, p, ins, "reads")
        return TOP

    def store_unknown(self, eng, st, p, val, size, ins):
        if isinstance(p, Ptr) and p.obj == MAIN:
            self.access_main(eng, st, p, ins, "writes")

    def load_undef(self, eng, st, p, size, ins): return TOP

    def extern(self, eng, st, f, args, ins):
        for a in args:
            if isinstance(a, Ptr) and a.obj == MAIN: self.access_main(eng, st, a, ins, "touches")
            if isinstance(a, Ptr) and a.obj == SUB: self.bad(st, "table-raw", "the bank table is accessed as raw memory", eng, ins)
        if f is None: return ("val", TOP)
        n = f.name
        if n == "sem_wait": self.sem_wait(eng, st, ins)
        elif n == "sem_post": self.sem_post(eng, st, ins)
        return ("val", TOP if ins.get("id") is not None else None)

    def copy_unknown(self, eng, st, dst, src, size, ins): pass

    # ---- semaphore
    def sem_wait(self, eng, st, ins):
        self.facts.add("sem_wait")
        if self.role == 2:
            if st.mon["waited"]: self.bad(st, "sem-double-wait", "the worker waits on the semaphore twice for one bank", eng, ins)
            st.mon["waited"] = 1

    def sem_post(self, eng, st, ins):
        self.facts.add("sem_post")
        if self.role != 1: self.bad(st, "sem-spurious-post", "a worker of stage %d posts the semaphore" % self.role, eng, ins)
        o = st.mon["owed"]
        if o == 0 and not self.dry: self.bad(st, "sem-spurious-post", "the semaphore is posted although no bank has been handed over since the last post", eng, ins)
        if o == 1: st.mon["owed"] = 0
        if st.mon["done"] == 2:      # the posts come in a pass of their own: one must belong to this bank
            for k, fr in enumerate(st.frames):
                lv = fr.f.live_after(fr.bi, fr.ii)
                if any(isinstance(fr.regs.get(r), Ix) and (fr.regs[r].rel == "A" or fr.regs[r].rel == "E" and st.mon["zero"]) for r in lv): st.mon["donepost"] = 1

    # ---- events on bank entries
    def publish(self, eng, st):
        """a hand-over: every tracked count moves"""
        def conv(v):
            if isinstance(v, Cn): return Cn(v.d - 1) if v.d - 1 >= -3 else Sym("off")
            return v
        for fr in st.frames:
            for r in list(fr.regs):
                if isinstance(fr.regs[r], Cn): fr.regs[r] = conv(fr.regs[r])
        for oid in list(st.mem):
            if any(isinstance(x[1], Cn) for x in st.mem[oid].cells.values()):
                n = st.wobj(oid)
                for k, (sz, v) in list(n.cells.items()): n.cells[k] = (sz, conv(v))
        if st.mon["own"] is None and self.role == 3: st.mon["num"] = None
        if isinstance(st.mon["num"], Cn): st.mon["num"] = conv(st.mon["num"])
        st.mon["P"] = "P"

    def setown(self, st, v):
        st.mon["own"] = v

    def transition(self, eng, st, ix, old, new, ins, cas):
        """this thread puts an entry into state `new`; old = expected state for a CAS, None for a store"""
        S = self.S; m = st.mon; self.events += 1
        names = {v: k for k, v in S.items()}
        nn = names.get(new, str(new))
        if ix.rel in "NEXYU":
            self.bad(st, "table-range", "the state of a bank outside the table is written (%s)" % ix, eng, ins)
        star = ix.rel == "A"
        ordr = ins.get("ord")
        if not cas and ordr not in REL or cas and ordr not in ("acq_rel", "seq_cst") + (ACQ if new in (S["Stage1_Locked"], S["Stage2_Locked"], S["Stage3_Locked"]) else REL):
            self.bad(st, "order", "the bank state %s is written without the ordering that publishes the contents" % nn, eng, ins)
        if star: self.facts.add(("to", nn))
        role = self.role
        if role == 1:
            if new == S["Stage1_Locked"]:
                if not star: return
                if m["own"] is not None: self.bad(st, "double-acquire", "stage 1 locks a bank it already holds", eng, ins)
                if not m["reset"]: self.bad(st, "no-reset", "a bank is locked before every bank was marked free", eng, ins)
                if not (cas and old == S["Free"] or not cas and m["obs"] == S["Free"]):
                    self.bad(st, "bad-acquire", "stage 1 locks a bank that is not known to be free", eng, ins)
                m["own"] = 1; m["num"] = None; m["obs"] = None; self.acquired = True
                return
            if new == S["Stage1_Unlocked"] or new == S["Free"]:
                if new == S["Free"] and not m["started"]:
                    if star: m["reset"] = 1; m["obs"] = new
                    return
                want = S["Free"] if self.dry else S["Stage1_Unlocked"]
                if new != want: self.bad(st, "bad-publish", "stage 1 puts a bank it filled into state %s" % nn, eng, ins)
                if star:
                    if m["own"] is None: self.bad(st, "publish-unowned", "stage 1 hands over a bank it does not hold", eng, ins)
                    if not self.dry:
                        n = m["num"]; P = m["P"]
                        if n is None: self.bad(st, "number-late", "a bank is handed over before its number is written", eng, ins)
                        if not (n == P if isinstance(n, int) else n == Cn(0)):  # P is 0 before the first hand-over
                            self.bad(st, "number-wrong", "a bank is handed over with a number that is not the count of banks handed over before", eng, ins)
                    m["own"] = None; m["obs"] = None
                if not self.dry:
                    self.publish(eng, st)
                    if m["owed"]: self.bad(st, "sem-missing-post", "two banks are handed over with one post of the semaphore", eng, ins)
                    m["owed"] = 1
                return
            if new == S["YouAreDone"]:
                if star:
                    if m["own"] is not None: self.bad(st, "done-owned", "stage 1 ends the session while it still holds a bank", eng, ins)
                    if m["obs"] != S["Free"]: self.bad(st, "done-early", "the end of the session is announced on a bank that was not seen free first", eng, ins)
                    m["starend"] = 1
                if not m["fed"]: self.bad(st, "done-before-parse", "the end of the session is announced before the parser has run", eng, ins)
                if m["owed"] and not m["done"]: self.bad(st, "sem-missing-post", "the last bank was handed over without a post of the semaphore", eng, ins)
                m["done"] = 1 if m["owed"] == 0 else 2
                m["owed"] = 1 if m["owed"] == 0 else 2
                if m["owed"] == 2: m["done"] = 2
                return
            self.bad(st, "bad-state", "stage 1 puts a bank into state %s" % nn, eng, ins)
        if role == 2:
            if new == S["Stage2_Locked"]:
                if not m["waited"]: self.bad(st, "sem-no-wait", "a stage 2 worker takes a bank without waiting on the semaphore", eng, ins)
                m["waited"] = 0
                if star:
                    if m["own"] is not None: self.bad(st, "double-acquire", "stage 2 locks a bank it already holds", eng, ins)
                    if not (cas and old == S["Stage1_Unlocked"]):
                        self.bad(st, "bad-acquire", "a stage 2 worker takes a bank other than by an atomic exchange from 'filled by stage 1'", eng, ins)
                    m["own"] = 1; m["obs"] = None; m["num"] = None; m["xfer"] = 0; self.acquired = True
                else: m["xo"] = 0
                return
            if new == S["Stage2_Unlocked"]:
                if star:
                    if m["own"] is None: self.bad(st, "publish-unowned", "stage 2 hands over a bank it does not hold", eng, ins)
                    if m["own"] != 2 and self.world is None: self.bad(st, "publish-unreduced", "stage 2 hands over a bank it has not looked at", eng, ins)
                    if m["xf"] and m["xfer"] != 2: self.bad(st, "xfer-release", "a bank is released without telling the transfer listener first", eng, ins)
                    m["own"] = None; m["obs"] = None
                return
            self.bad(st, "bad-state", "stage 2 puts a bank into state %s" % nn, eng, ins)
        if role == 3:
            if new == S["Stage3_Locked"]:
                if star:
                    if m["own"] is not None: self.bad(st, "double-acquire", "stage 3 locks a bank it already holds", eng, ins)
                    if not (cas and old == S["Stage2_Unlocked"] or m["obs"] == S["Stage2_Unlocked"]):
                        self.bad(st, "bad-acquire", "stage 3 takes a bank that stage 2 has not finished", eng, ins)
                    if m["numeq"] != 1: self.bad(st, "number-order", "stage 3 takes a bank without having found that its number is the next one due", eng, ins)
                    m["own"] = 1; m["obs"] = None; m["numeq"] = 0; m["xfer"] = 0; self.acquired = True
                    m["num"] = Cn(0)
                self.publish(eng, st)
                return
            if new == S["Free"]:
                if star:
                    if m["own"] is None: self.bad(st, "publish-unowned", "stage 3 frees a bank it does not hold", eng, ins)
                    m["own"] = None; m["obs"] = None; m["num"] = None
                return
            self.bad(st, "bad-state", "stage 3 puts a bank into state %s" % nn, eng, ins)

    def observe(self, eng, st, ix, v):
        if ix.rel == "A" and st.mon["own"] is None: st.mon["obs"] = v
        if v == self.S["YouAreDone"]: st.mon["seendone"] = 1

    def possible(self, st, ix):
        """states this thread may find in an entry it looks at"""
        S = self.S; m = st.mon
        if self.world is not None: return [self.world]
        star = ix.rel == "A"
        if star and m["own"] is not None:
            return [{1: S["Stage1_Locked"], 2: S["Stage2_Locked"], 3: S["Stage3_Locked"]}[self.role]]
        if star and m["obs"] is not None:
            stable = {1: (S["Free"],), 2: (S["YouAreDone"],), 3: (S["Stage2_Unlocked"], S["YouAreDone"])}[self.role]
            if m["obs"] in stable: return [m["obs"]]
        if self.role == 1: return [S[k] for k in ("Free", "Stage1_Locked", "Stage1_Unlocked", "Stage2_Locked", "Stage2_Unlocked", "Stage3_Locked")]
        return list(S.values())

    # ---- calls through pointers
    def indirect(self, eng, st, fr, p, args, ins):
        m = st.mon
        if isinstance(p, Sym) and p.n == ("fn", "xfer"):
            self.facts.add("xfer")
            a, b = args[0], args[1]
            holder = self.holder(st)
            if self.role == 2:
                if isinstance(a, int) and signed(a, 32) == -1:
                    if m["own"] is not None:
                        if b != Sym("num", "star"): self.bad(st, "xfer-acquire", "the transfer listener is not told the number of the bank that was taken", eng, ins)
                        m["xfer"] = 1
                elif m["own"] is not None:
                    if not (isinstance(a, Ix) and a.rel == "A") or not (isinstance(b, int) and signed(b, 32) == -1):
                        self.bad(st, "xfer-release", "the transfer listener is told the wrong bank at release", eng, ins)
                    m["xfer"] = 2
                else:
                    if isinstance(a, Ix) and a.rel == "A": self.bad(st, "xfer-release", "the transfer listener is told of a bank that is no longer held", eng, ins)
            if self.role == 3:
                if m["own"] is not None:
                    if not (isinstance(a, Ix) and a.rel == "A") or b != Sym("num", "star") and b != m["num"] or b is None:
                        self.bad(st, "xfer-acquire", "the transfer listener is told the wrong bank or number", eng, ins)
                    m["xfer"] = 1
                elif isinstance(a, Ix) and a.rel == "A":
                    self.bad(st, "xfer-acquire", "the transfer listener is told of a bank that is not held", eng, ins)
            return ("val", None)
        if isinstance(p, Sym) and p.n == ("fn", "red"):
            self.facts.add("listener")
            if m["own"] is not None and m["xf"] and not m["xfer"]:
                self.bad(st, "xfer-acquire", "a bank is reduced before the transfer listener is told of it", eng, ins)
            return ("val", TOP)
        if self.role == 1 and isinstance(p, Sym) and p.n == ("fn", "parse"):
            return self.parser(eng, st, ins)
        return ("val", TOP)

    def holder(self, st): return None

    def parser(self, eng, st, ins):
        m = st.mon
        if not m["reset"]: self.bad(st, "no-reset", "the parser starts before every bank was marked free", eng, ins)
        m["started"] = 1
        s1 = st.fork(); s1.mon["fed"] = 1
        if m.get("feeding"):
            st.mon["feeding"] = 0
            def ret(s, v):
                good = isinstance(v, Ptr) and v.obj == MAIN
                o = v.off if good else None
                if good and not isinstance(o, MOff): o = MOff(self.zero(s), o == 0)
                if good and not o.exact: good = False
                if not good: self.bad(s, "feed-result", "the parser is not given the start of a bank", eng, ins)
                if (o.ix.rel == "A") != (s.mon["own"] is not None):
                    self.bad(s, "feed-result", "the parser is given a bank other than the one that was locked", eng, ins)
                s.frames[-1].ii -= 1
                return v
            return ("call", self.feed, [Ptr(self.thisobj, 0)], ret)
        st.mon["feeding"] = 1
        return ("alts", [(s1, ("val", TOP)), (st, ("again",))])


class BankEngine(Engine):
    def x_getelementptr(self, st, fr, ins, basen):
        Engine.x_getelementptr(self, st, fr, ins, basen)
        v = fr.regs[ins["id"]]
        if isinstance(v, Alts): return self.forked_value(st, fr, ins, v.outs)

    def field(self, p, st):
        d = self.dom
        o = d.norm_sub(st, p)
        return o.ix, o.f

    def x_load(self, st, fr, ins, basen):
        p = self.val(st, fr, ins["ops"][0]); d = self.dom
        if isinstance(p, Ptr) and p.obj == SUB:
            ix, f = self.field(p, st)
            if ix.rel in "NEXYU":
                d.bad(st, "table-range", "an entry outside the bank table is read (%s)" % ix, self, ins)
            if f == d.fstate:
                if ins.get("ord") not in ACQ:
                    d.bad(st, "order", "the bank state is read without acquire ordering", self, ins)
                return self.forked_value(st, fr, ins, [(v, (lambda s, v=v: d.observe(self, s, ix, v))) for v in d.possible(st, ix)])
            if f == d.fnum:
                m = st.mon
                if ix.rel != "A": v = Sym("num", "other")
                elif m["own"] is not None: v = m["num"] if m["num"] is not None else Sym("num", "star")
                elif d.role == 3 and m["obs"] == d.S["Stage2_Unlocked"]: v = Sym("num", "star")
                else: v = Sym("num", "stale")
                fr.regs[ins["id"]] = v
                return None
            fr.regs[ins["id"]] = TOP
            return None
        if isinstance(p, Ptr) and p.obj == MAIN:
            d.access_main(self, st, p, ins, "reads")
            if d.role in (2, 3) and st.mon["own"] is not None: st.mon["own"] = 2
            fr.regs[ins["id"]] = TOP
            return None
        return Engine.x_load(self, st, fr, ins, basen)

    def x_store(self, st, fr, ins, basen):
        v = self.val(st, fr, ins["ops"][0]); p = self.val(st, fr, ins["ops"][1]); d = self.dom
        if isinstance(p, Ptr) and p.obj == SUB:
            ix, f = self.field(p, st)
            if f == d.fstate:
                if not isinstance(v, int): raise Unsupported("unknown state stored at %s" % self.loc(ins))
                d.transition(self, st, ix, None, v, ins, False)
            elif f == d.fnum:
                if ix.rel in "NEXYU": d.bad(st, "table-range", "the number of a bank outside the table is written (%s)" % ix, self, ins)
                if ix.rel == "A":
                    if st.mon["own"] is None and (st.mon["started"] or d.role != 1):
                        d.bad(st, "number-unowned", "the number of a bank is written by a thread that does not hold it", self, ins)
                    if d.role == 2 and v != Sym("num", "star"):
                        d.bad(st, "number-wrong", "a stage 2 worker changes the number of the bank it holds", self, ins)
                    st.mon["num"] = v
            return None
        if isinstance(p, Ptr) and p.obj == MAIN:
            d.access_main(self, st, p, ins, "writes")
            if d.role in (2, 3) and st.mon["own"] is not None: st.mon["own"] = 2
            return None
        if isinstance(p, Ptr) and p.obj == d.thisobj and p.off in d.inductives and isinstance(v, int) and ins["ssize"] == 4:
            if p.off not in d.counters: v = Ix("U", "0" if v == 0 else "+" if signed(v, 32) > 0 else "?")
            else: v = Cn(signed(v, 32)) if st.mon["P"] == 0 and abs(signed(v, 32)) < 3 else TOP
            d.on_store(self, st, p, v, 4, ins)
            self.store(st, p, v, 4, ins)
            return None
        return Engine.x_store(self, st, fr, ins, basen)

    def x_cmpxchg(self, st, fr, ins, basen):
        p = self.val(st, fr, ins["ops"][0]); e = self.val(st, fr, ins["ops"][1]); n = self.val(st, fr, ins["ops"][2]); d = self.dom
        if not (isinstance(p, Ptr) and p.obj == SUB):
            fr.regs[ins["id"]] = TOP; return None
        ix, f = self.field(p, st)
        if f != d.fstate: raise Unsupported("compare-exchange on something other than a bank state at %s" % self.loc(ins))
        if ix.rel in "NEXYU": d.bad(st, "table-range", "the state of a bank outside the table is exchanged (%s)" % ix, self, ins)
        if not isinstance(e, int) or not isinstance(n, int): raise Unsupported("compare-exchange with unknown states at %s" % self.loc(ins))
        res = []
        poss = d.possible(st, ix)
        sz = ins["csize"]
        if e in poss:
            s = st.fork()
            try:
                d.transition(self, s, ix, e, n, ins, True)
                s.frames[-1].regs[ins["id"]] = Agg(((0, sz, e), (sz, 1, 1)))
                s.note(ins, "exchange %s -> %s on %s" % (e, n, ix))
                res.append((s, "next", None))
            except Infeasible:
                pass
        for v in poss:
            s = st.fork()
            d.observe(self, s, ix, v)
            s.frames[-1].regs[ins["id"]] = Agg(((0, sz, v), (sz, 1, 0)))
            s.note(ins, "exchange on %s fails, found %s" % (ix, v))
            res.append((s, "next", None))
        return ("forks", res)

    def x_atomicrmw(self, st, fr, ins, basen):
        p = self.val(st, fr, ins["ops"][0]); d = self.dom
        if isinstance(p, Ptr) and p.obj == SUB:
            ix, f = self.field(p, st)
            v = self.val(st, fr, ins["ops"][1])
            if f == d.fstate and ins["rmw"] == "xchg" and isinstance(v, int):
                d.transition(self, st, ix, None, v, ins, False)
                fr.regs[ins["id"]] = TOP
                return None
            raise Unsupported("atomic update of the bank table at %s" % self.loc(ins))
        fr.regs[ins["id"]] = TOP

    def copy_range(self, st, dst, src, size, ins):
        for p, w in ((dst, "writes"), (src, "reads")):
            if isinstance(p, Ptr) and p.obj == MAIN:
                self.dom.access_main(self, st, p, ins, w)
                if self.dom.role in (2, 3) and st.mon["own"] is not None: st.mon["own"] = 2
        if all(isinstance(p, Ptr) and isinstance(p.off, int) and p.obj not in (MAIN, SUB) for p in (dst, src)) and isinstance(size, int):
            return Engine.copy_range(self, st, dst, src, size, ins)

    def binop(self, st, op, a, b, bits, ins):
        if op == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj == SUB and isinstance(a.off, Off) and isinstance(b.off, Off) and a.off.f == b.off.f and b.off.ix == self.dom.zero(st):
            return Sym("ent", a.off.ix)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return TOP
        return Engine.binop(self, st, op, a, b, bits, ins)


def opaque_std(f):
    n = f.name
    if "atomic" in n or "memory_order" in n: return False
    return n.startswith(("_ZNSt", "_ZNKSt", "_ZSt", "_ZN9__gnu_cxx", "_ZNK9__gnu_cxx", "_ZN9__gnu_cxx"))


def members(mod, cls, base=0):
    """{name: (offset, kind)} of a class and its bases"""
    t = mod.types.get(cls)
    if t is None: raise AnalysisBroken("no layout of %s" % cls)
    out = {}
    for off, b in t["bases"]:
        out.update(members(mod, b[1], base + off))
    for n, o, k in t["members"]: out[n] = (base + o, k)
    return out


def counter_members(mod, cls):
    """offsets of members that some method increments"""
    out = set(); consts = {}
    for f in mod.functions.values():
        if not f.defined or not f.cls or not f.cls.startswith("Centaurus::") or not f.args: continue
        this = [a for a in f.args if not a.get("sret")][:1]
        if not this: continue
        base = {this[0]["id"]: 0}; val = {}
        for _ in range(2):
            for blk in f.blocks:
                for i in blk:
                    if i["op"] == "getelementptr" and i["base"][0] == "r" and i["base"][1] in base and not i["var"]: base[i["id"]] = base[i["base"][1]] + i["off"]
                    elif i["op"] == "load" and i["ops"][0][0] == "r" and i["ops"][0][1] in base: val[i["id"]] = (base[i["ops"][0][1]], False)
                    elif i["op"] == "add" and any(o[0] == "r" and o[1] in val for o in i["ops"]):
                        o = [o for o in i["ops"] if o[0] == "r" and o[1] in val][0]; val[i["id"]] = (val[o[1]][0], True)
                    elif i["op"] == "phi" :
                        for v, _b in i["in"]:
                            if v[0] == "r" and v[1] in val: val[i["id"]] = val[v[1]]
                    elif i["op"] == "store" and i["ops"][0][0] == "r" and i["ops"][1][0] == "r" and i["ops"][1][1] in base:
                        v = val.get(i["ops"][0][1])
                        if v and v[1] and v[0] == base[i["ops"][1][1]] and (f.cls == cls): out.add(v[0])
                    if i["op"] == "store" and i["ops"][0][0] == "i" and i["ops"][1][0] == "r" and i["ops"][1][1] in base and f.cls == cls and not re.match(r"Stage\dRunner$", f.src or ""):
                        consts.setdefault(base[i["ops"][1][1]], set()).add(f.name)
    return {o for o in out if len(consts.get(o, ())) <= 1}, out


def recursive_functions(mod, roots):
    """functions that can reach themselves"""
    calls = {}
    def callees(f):
        if f.name not in calls:
            calls[f.name] = set()
            if f.defined:
                for blk in f.blocks:
                    for i in blk:
                        if i["op"] in ("call", "invoke") and i["callee"][0] == "g" and i["callee"][1] in mod.functions:
                            g = mod.functions[i["callee"][1]]
                            if g.defined and not opaque_std(g): calls[f.name].add(g.name)
        return calls[f.name]
    todo = list(roots); seen = set()
    while todo:
        f = todo.pop()
        if f.name in seen: continue
        seen.add(f.name)
        todo += [mod.functions[n] for n in callees(f)]
    rec = set()
    for n in seen:
        st = list(calls[n]); s2 = set()
        while st:
            x = st.pop()
            if x == n: rec.add(n); break
            if x in s2: continue
            s2.add(x); st += list(calls.get(x, ()))
    return rec


def touched(mod, f, seen=None):
    """offsets of the members a method and its callees may touch (None: cannot tell)"""
    seen = {} if seen is None else seen
    if f.name in seen: return seen[f.name]
    seen[f.name] = set()
    this = [a for a in f.args if not a.get("sret")][:1]
    if not this or not f.defined: return None
    out = set(); base = {this[0]["id"]: 0}
    for _ in range(2):
        for blk in f.blocks:
            for i in blk:
                if i["op"] == "getelementptr" and i["base"][0] == "r" and i["base"][1] in base:
                    if i["var"]: return None
                    base[i["id"]] = base[i["base"][1]] + i["off"]
    for blk in f.blocks:
        for i in blk:
            if i["op"] == "getelementptr": continue
            if i["op"] in ("load", "store", "cmpxchg", "atomicrmw"):
                p = i["ops"][-1] if i["op"] in ("load", "store") else i["ops"][0]
                if p[0] == "r" and p[1] in base: out.add(base[p[1]])
                if i["op"] == "store" and i["ops"][0][0] == "r" and i["ops"][0][1] in base: return None
                continue
            us = [o for o in i.get("ops", ()) if o[0] == "r" and o[1] in base] + [o for o in i.get("args", ()) if o[0] == "r" and o[1] in base]
            if not us: continue
            if i["op"] in ("call", "invoke") and i["callee"][0] == "g":
                g = mod.functions.get(i["callee"][1])
                a = i.get("args") or i["ops"]
                if g is not None and g.defined and not opaque_std(g) and us[0] == a[1 if g.args and g.args[0].get("sret") else 0] and len(us) == 1:
                    r = touched(mod, g, seen)
                    if r is None: return None
                    out |= {base[us[0][1]] + x for x in r}
                    continue
                if g is not None and opaque_std(g):
                    out |= {base[u[1]] for u in us}; continue
            if i["op"] == "icmp": continue
            return None
    seen[f.name] = out
    return out


class Summaries:
    """recursive functions by a global fixpoint over (entry abstraction -> exit abstractions)"""
    def __init__(self, names, leaf=()): self.names = names; self.leaf = leaf; self.table = {}; self.entry = {}; self.deps = {}; self.cur = None; self.todo = []; self.foot = {}

    def keyof(self, E, st, f, args):
        ren = lambda o: o
        o = st.mem[E.dom.thisobj]
        this = tuple(sorted((k, c[0], canon_val(c[1], ren)) for k, c in o.cells.items() if k not in self.outside(E, st, f)))
        return (f.name, this, tuple(sorted((k, canon_val(v, ren)) for k, v in st.mon.items())),
                tuple("p" if isinstance(a, Ptr) and a.obj not in (MAIN, SUB, E.dom.thisobj) else canon_val(a, ren) for a in args))

    def outside(self, E, st, f):
        """members the function and what it calls never touch"""
        if f.name not in self.foot: self.foot[f.name] = touched(E.mod, f)
        ft = self.foot[f.name]
        if ft is None: return set()
        return {k for k, c in st.mem[E.dom.thisobj].cells.items() if k not in ft and not isinstance(c[1], (Cn, Sym))}

    def scrub(self, E, s):
        """what a recursive function can be told apart by: no addresses of locals, no stale observation"""
        o = s.wobj(E.dom.thisobj)
        for k, c in list(o.cells.items()):
            if isinstance(c[1], Ptr) and c[1].obj not in (MAIN, SUB, E.dom.thisobj) and not (isinstance(c[1].obj, tuple)) and c[1].obj not in E.dom.keepobjs: o.cells[k] = (c[0], TOP)
            elif isinstance(c[1], Ptr) and c[1].obj == MAIN and isinstance(c[1].off, MOff) and c[1].off.ix.rel in "LH": o.cells[k] = (c[0], Ptr(MAIN, MOff(Ix("H" if s.mon["zero"] else "L", "+"), c[1].off.exact)))
        s.mon["obs"] = None
        if E.dom.role == 3: s.mon["seendone"] = 0

    def call(self, E, st, f, args, ins):
        self.scrub(E, st)
        k = self.keyof(E, st, f, args)
        if k not in self.table:
            self.table[k] = {}; self.entry[k] = (st.fork(), f, args); self.deps[k] = set(); self.todo.append(k)
        if self.cur is not None:
            self.deps[k].add(self.cur)
            return self.apply(E, st, k)
        while self.todo:
            i = next((i for i in range(len(self.todo) - 1, -1, -1) if self.todo[i][0] in self.leaf), 0)
            c = self.todo.pop(i); self.cur = c
            s0, g, ar = self.entry[c]
            s0 = s0.fork()
            E.start(s0, g, ar)
            n = len(self.table[c])
            for kind, s, v in E.run([s0]):
                if kind != "ret": continue
                self.scrub(E, s)
                o = s.mem[E.dom.thisobj]
                rv = v if isinstance(v, (int, Ix, Cn, Sym)) or v is TOP or isinstance(v, Ptr) and v.obj in (MAIN, SUB) else TOP
                out = self.outside(E, self.entry[c][0], g)
                ek = (tuple(sorted(((a, b) for a, b in o.cells.items() if a not in out), key=lambda x: x[0])), tuple(sorted(s.mon.items())), rv)
                self.table[c][repr(ek)] = ek
            if len(self.table[c]) != n:
                for d in self.deps[c] | {c}:
                    if d not in self.todo and (d != c or c in self.deps[c]): self.todo.append(d)
        self.cur = None
        return self.apply(E, st, k)

    def apply(self, E, st, k):
        alts = []
        for cells, mon, rv in list(self.table[k].values()):
            s = st.fork()
            o = s.wobj(E.dom.thisobj); out = self.outside(E, self.entry[k][0], self.entry[k][1]); keep = {a: b for a, b in o.cells.items() if a in out}; o.cells = dict(cells); o.cells.update(keep); s.mon = dict(mon)
            alts.append((s, ("val", rv)))
        if not alts: raise Infeasible()
        return ("alts", alts)


def explore(mod, role, dry=False, xfer=True, world=None, captured=False, limit=120, starts=((False, False), (False, True), (True, False), (True, True))):
    """runs the worker body of one role over all start situations; returns the Dom with violations and facts"""
    bodies = [f for f in mod.functions.values() if f.defined and f.src == "thread_runner_impl" and f.cls == "Centaurus::Stage%dRunner" % role]
    if len(bodies) != 1: raise AnalysisBroken("worker body of stage %d: found %d" % (role, len(bodies)))
    body = bodies[0]
    cls = body.cls
    mem = members(mod, cls)
    S = mod.enums.get(B + "::WindowBankState")
    if not S: raise AnalysisBroken("no bank states")
    for n in ("Free", "Stage1_Locked", "Stage1_Unlocked", "Stage2_Locked", "Stage2_Unlocked", "Stage3_Locked", "YouAreDone"):
        if n not in S: raise AnalysisBroken("no bank state %s" % n)
    ent = mod.types.get(B + "::WindowBankEntry")
    if not ent: raise AnalysisBroken("no bank entry layout")
    fo = {n: o for n, o, k in ent["members"]}
    if "number" not in fo or "state" not in fo: raise AnalysisBroken("bank entry fields")
    D = Dom(role, S, ent["size"], fo["number"], fo["state"], dry, world)
    feed = [f for f in mod.functions.values() if f.defined and f.src == "feed_callback" and f.cls == cls]
    if role == 1:
        if len(feed) != 1: raise AnalysisBroken("feed_callback")
        D.feed = feed[0]
    E = BankEngine(mod, D, max_states=400000, max_time=limit)
    rec = recursive_functions(mod, [body] + feed)
    rec0 = set(rec)
    if rec:      # inside a recursion the bank operations are summarised too
        for n in list(rec):
            for blk in mod.functions[n].blocks:
                for i in blk:
                    if i["op"] in ("call", "invoke") and i["callee"][0] == "g":
                        g = mod.functions.get(i["callee"][1])
                        if g is not None and g.defined and g.cls == cls and len([a for a in g.args if not a.get("sret")]) == 1: rec.add(g.name)
    summ = Summaries(rec, rec - rec0)
    E.handlers = []
    def handler(f):
        if f.name in rec: return summ.call
        if opaque_std(f): return opaque
        return None
    def opaque(E2, st, f, a, ins):
        for x in a:
            if isinstance(x, Ptr) and x.obj == MAIN:
                D.access_main(E2, st, x, ins, "passes on")
                if role in (2, 3) and st.mon["own"] is not None: st.mon["own"] = 2
        # out-parameters become unknown
        return ("val", TOP if "id" in ins else None)
    E.handler = handler
    rets = 0; cover = {}
    D.counters, D.inductives = counter_members(mod, cls); D.numoff = mem["m_bank_num"][0]
    written = None; fl = Flow(mod)
    for f in mod.functions.values():
        if f.defined and f.cls == cls and re.match(r"Stage\dRunner$", f.src or ""):
            w, _ = fl.summary(f, 0)
            written = w if written is None else (written if w is FULL else w if written is FULL else written & w)
    if not written: written = set()
    if isinstance(world, str): D.world = S[world]
    for zero, last in starts:
        if True:
            st = State(); D.keepobjs = set()
            t = st.new(mod.types[cls]["size"], "this")
            D.thisobj = t
            c = st.mem[t].cells
            def put(n, v, must=True):
                if n not in mem:
                    if must: raise AnalysisBroken("no member %s in %s" % (n, cls))
                    return
                c[mem[n][0]] = (mem[n][1][2], v)
            for n, (o, k) in mem.items():
                if k[0] in ("basic", "enum", "ptr"): c[o] = (k[2], TOP)
            c[0] = (8, Ptr(("g", "@vt"), 0))
            z0 = Ix("A", "0") if zero else Ix("L", "0")
            put("m_sub_window", Ptr(SUB, Off(z0, 0))); put("m_main_window", Ptr(MAIN, MOff(z0, True))); put("m_bank_num", Sym("n", 0)); put("m_bank_size", Sym("bsize"))
            put("m_listener", Sym("fn", "red"), role != 1); put("m_xferlistener", Sym("fn", "xfer") if xfer else 0, role != 1)
            put("is_dry", 1 if dry else 0, False); put("is_result_captured", 1 if captured else 0, False)
            for n in ("m_current_bank", "m_counter"):
                if n in mem: c[mem[n][0]] = (4, UNDEF)
            for o in D.counters:
                if set(range(o, o + 4)) <= written: c[o] = (4, Cn(0))
            if "m_current_bank" in mem and set(range(mem["m_current_bank"][0], mem["m_current_bank"][0] + 4)) <= written: c[mem["m_current_bank"][0]] = (4, Ix("N"))
            if role == 1:
                vt = st.new(64, "vt"); po = st.new(8, "parser")
                st.mem[po].cells[0] = (8, Ptr(vt, 0)); D.keepobjs |= {vt, po}
                for k in range(8): st.mem[vt].cells[8 * k] = (8, Sym("fn", "parse"))
                put("m_parser", Ptr(po, 0))
            st.mon = dict(zero=zero, last=last, own=None, obs=None, num=None, P=0, owed=0, waited=0, reset=0, started=0, fed=0, done=0, starend=0, seendone=0, numeq=0, xfer=0, xf=1 if xfer else 0, xo=0, donepost=0, feeding=0)
            E.start(st, body, [Ptr(t, 0)])
            D.acquired = False
            n = 0
            for kind, s, v in E.run([st]):
                if kind == "ret":
                    n += 1
                    m = s.mon
                    last_ins = body.blocks[0][0]
                    try:
                        if m["own"] is not None: D.bad(s, "exit-holding", "the worker ends while it still holds a bank", E, last_ins)
                        if role == 1:
                            if not m["starend"]: D.bad(s, "done-missing", "stage 1 ends without announcing the end on every bank", E, last_ins)
                            if m["done"] == 1 and m["owed"]: D.bad(s, "sem-missing-post", "the end is announced on a bank without a post of the semaphore", E, last_ins)
                            if m["done"] == 2 and not m["donepost"]: D.bad(s, "sem-missing-post", "the end is announced without posting the semaphore", E, last_ins)
                        if role == 2 and not m["seendone"]: D.bad(s, "exit-early", "a stage 2 worker ends although the end of the session was not announced", E, last_ins)
                    except Infeasible: pass
            cover[(zero, last)] = (D.acquired, n)
            rets += n
    D.cover = cover; D.nstates = E.nstates; D.rets = rets; D.body = body
    return D
