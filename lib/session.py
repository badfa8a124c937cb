"""What a session takes from the system: descriptors, mappings, named objects, threads.  Constructors, start, wait and destructors are
interpreted with every system call succeeding or failing; sizes and offsets are terms over the unknown parameters."""
import re
import ir
from ir import AnalysisBroken
from engine import *
from autom import offset_of


class Tm(AV):
    """an integer term: constant plus multiples of atoms, modulo 2**64"""
    __slots__ = ("c", "t")
    def __init__(self, c, t=()): self.c = c; self.t = tuple(sorted(((a, k) for a, k in dict(t).items() if k), key=repr))
    def canon(self, ren): return (self.c, self.t)
    def __eq__(self, o): return isinstance(o, Tm) and (o.c, o.t) == (self.c, self.t)
    def __hash__(self): return hash((self.c, self.t))
    def __repr__(self): return show(self)


def atom(*a): return Tm(0, [(a, 1)])
def term(v): return v if isinstance(v, Tm) else Tm(v) if isinstance(v, int) else None
def lower(t): return t.c if not t.t else t
def add(a, b, k=1):
    d = dict(a.t)
    for x, n in b.t: d[x] = (d.get(x, 0) + k * n) % 2**64
    return Tm((a.c + k * b.c) % 2**64, d)
def times(a, n): return Tm(a.c * n % 2**64, {x: k * n % 2**64 for x, k in a.t})


def op(o, a, b, bits):
    if bits == 64 and o in ("add", "sub"): return add(a, b, 1 if o == "add" else -1)
    if bits == 64 and o == "shl" and not b.t: return times(a, 1 << b.c)
    if bits == 64 and o == "mul":
        if not a.t: return times(b, a.c)
        if not b.t: return times(a, b.c)
    if o == "lshr" and not b.t: return op("udiv", a, Tm(1 << b.c), bits)
    if o == "and" and not b.t and bits == 64 and b.c and ((-b.c) % 2**64) & ((-b.c) % 2**64 - 1) == 0:      # rounding down to a power of two
        p = (-b.c) % 2**64; return times(op("udiv", a, Tm(p), 64), p)
    if o in ("mul", "add", "and", "or", "xor"): a, b = sorted((a, b), key=repr)
    return atom(o, bits, a, b)


def value(t, env):
    """the term's value for given parameters"""
    r = t.c
    for a, k in t.t: r += k * avalue(a, env)
    return r % 2**64


def holds(conds, env):
    """every comparison has the outcome noted"""
    return all(icmp_int(p, value(x, env) % 2**n, value(y, env) % 2**n, n) == v for (p, n, x, y), v in conds)


def avalue(a, env):
    if a[0] in env: return env[a[0]]
    if a[0] in ("sext", "zext", "trunc"):
        v = value(a[3], env) % 2**a[1]
        return (signed(v, a[1]) if a[0] == "sext" else v) % 2**a[2]
    if len(a) == 4:
        x, y = value(a[2], env) % 2**a[1], value(a[3], env) % 2**a[1]
        r = binop_int(a[0], x, y, a[1])
        if r is not None: return r
    raise AnalysisBroken("cannot evaluate %r" % (a,))


def show(t):
    def at(a): return str(a[0]) if len(a) == 1 else "%s(%s)" % (a[0], ",".join(show(x) for x in a if isinstance(x, Tm)) or ",".join(map(str, a[1:])))
    return " + ".join(([str(signed(t.c, 64))] if t.c or not t.t else []) + [("%d*" % signed(k, 64) if k != 1 else "") + at(a) for a, k in t.t])


class H(AV):
    """a descriptor or thread the system gave out"""
    __slots__ = ("kind", "n")
    def __init__(self, kind, n): self.kind = kind; self.n = n
    def canon(self, ren): return (self.kind, self.n)
    def __eq__(self, o): return isinstance(o, H) and (o.kind, o.n) == (self.kind, self.n)
    def __hash__(self): return hash((self.kind, self.n))
    def __repr__(self): return "%s#%d" % (self.kind, self.n)


class Name(AV):
    """a text: constant pieces and terms"""
    __slots__ = ("p",)
    def __init__(self, p): self.p = tuple(p)
    def canon(self, ren): return self.p
    def __eq__(self, o): return isinstance(o, Name) and o.p == self.p
    def __hash__(self): return hash(self.p)
    def __repr__(self): return "".join(x if isinstance(x, str) else "<%s>" % (x,) for x in self.p)


FAIL32, FAIL64 = 0xffffffff, 2**64 - 1
NEG = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}


class SysDomain(Domain):
    def icmp(self, E, st, pred, a, b, bits):
        if isinstance(b, (H, Ptr)) and not isinstance(a, (H, Ptr)): a, b = b, a; pred = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}.get(pred, pred)
        if isinstance(a, H) and isinstance(b, int):            # a descriptor is 0 or more
            n = signed(b, bits)
            if n < 0: return [({"eq": False, "ne": True, "slt": False, "sle": False, "sgt": True, "sge": True}.get(pred, True), None)] if pred in NEG else [(True, None), (False, None)]
            if n == 0 and pred in ("slt", "sge"): return [(pred == "sge", None)]
        if isinstance(a, H) and isinstance(b, H) and pred in ("eq", "ne"): return [((a == b) == (pred == "eq"), None)]
        if isinstance(a, Ptr) and isinstance(b, int) and pred in ("eq", "ne"): return [(pred == "ne", None)]
        x, y = term(a), term(b)
        if x and y and x == y: return [(pred in ("eq", "sge", "sle", "uge", "ule"), None)]
        if x and y:                        # a comparison of terms has one outcome in one life
            k = (pred, bits, x, y)
            for kk, v in st.mon.get("cond", ()):
                if kk == k: return [(v, None)]
            def learn(v): return lambda s: s.mon.__setitem__("cond", s.mon.get("cond", ()) + ((k, v),))
            return [(True, learn(True)), (False, learn(False))]
        return [(True, None), (False, None)]
    def binop(self, E, st, o, a, b, bits, ins):
        x, y = term(a), term(b)
        return lower(op(o, x, y, bits)) if x and y else TOP
    def cast(self, E, st, o, v, sb, db, ins):
        if isinstance(v, H): return v
        x = term(v)
        return atom(o, sb, db, x) if x and o in ("sext", "zext", "trunc") else TOP
    def extern(self, E, st, f, a, ins):
        if f.name.startswith("_ZNSt") or f.name.startswith("_ZNKSt") or f.name.startswith("_ZSt"): return ("val", TOP)
        return None
    def load_unknown(self, E, st, p, size, ins): return TOP
    def store_unknown(self, E, st, p, v, size, ins): pass
    def gep(self, E, st, b, off, sym, ins): return TOP
    def key(self, st, ren): return None


def text(E, st, p):
    """the text a pointer leads to"""
    if isinstance(p, Ptr):
        o = E.getobj(st, p.obj)
        c = o.cells.get(p.off) if o else None
        if c and isinstance(c[1], Name): return c[1]
        if o is not None and isinstance(p.off, int):
            out = []; i = p.off
            while True:
                v = E.load(st, Ptr(p.obj, i), 1, {"op": "load"}) if i < (o.size or 0) else None
                if not isinstance(v, int): break
                if v == 0: return Name(["".join(out)] if out else [])
                out.append(chr(v)); i += 1
    return Name([("?", repr(p))])


def join(ps):
    out = []
    for x in ps:
        if isinstance(x, str) and out and isinstance(out[-1], str): out[-1] += x
        elif x != "": out.append(x)
    return Name(out)


def where(E, ins): return E.loc(ins)


def live(st): return st.mon["live"]
def take(st, key, info=None): st.mon["live"] = dict(live(st), **{}); st.mon["live"][key] = info
def drop(st, key): st.mon["live"] = {k: v for k, v in live(st).items() if k != key}
def log(st, *x): st.mon["log"] = st.mon["log"] + (x,)
def fresh(st): st.mon["n"] += 1; return st.mon["n"]
def wrong(E, st, ins, rule, msg): st.mon["bad"] = st.mon["bad"] + ((rule, msg, E.loc(ins)),)


def either(E, st, f, ins, ok, bad, name):
    """the call succeeds or it fails"""
    if not st.mon["faults"]: return ("alts", [(st, ("val", ok(st)))])
    s = st.fork()
    s.mon["failed"] = s.mon["failed"] + ((name, E.loc(ins)),)
    s.note(ins, name + " fails")
    return ("alts", [(st, ("val", ok(st))), (s, ("val", bad))])


def h_open(E, st, f, a, ins):
    p = a[0]
    def ok(s):
        h = H("fd", fresh(s)); take(s, ("fd", h.n)); log(s, "open", text(E, s, p)); return h
    return either(E, st, f, ins, ok, FAIL32, "open")


def h_shm_open(E, st, f, a, ins):
    nm = text(E, st, a[0]); create = isinstance(a[1], int) and bool(a[1] & 0o100)
    def ok(s):
        h = H("fd", fresh(s)); take(s, ("fd", h.n)); log(s, "shm_open", nm, create)
        if create: take(s, ("memory name", nm))
        return h
    return either(E, st, f, ins, ok, FAIL32, "shm_open")


def h_close(E, st, f, a, ins):
    h = a[0]
    if isinstance(h, H) and ("fd", h.n) in live(st): drop(st, ("fd", h.n))
    elif isinstance(h, H): wrong(E, st, ins, "closed-twice", "a descriptor is closed that is not open any more")
    elif not st.mon["failed"]: wrong(E, st, ins, "close", "something that is not an open descriptor is closed (%r)" % (h,))
    return ("val", 0)


def fd_ok(E, st, h, ins, what):
    if isinstance(h, H) and ("fd", h.n) in live(st): return True
    if not (isinstance(h, int) and st.mon["failed"]): wrong(E, st, ins, "descriptor", "%s is given a descriptor that is not open" % what)
    return False


def h_fstat(E, st, f, a, ins):
    fd, buf = (a[1], a[2]) if f.name.startswith("__") else (a[0], a[1])
    if not fd_ok(E, st, fd, ins, "fstat"): return ("val", FAIL32)
    def ok(s):
        E.store(s, Ptr(buf.obj, buf.off + 48), atom("size of the file"), 8, ins); return 0
    return either(E, st, f, ins, ok, FAIL32, "fstat")


def h_ftruncate(E, st, f, a, ins):
    if not fd_ok(E, st, a[0], ins, "ftruncate"): return ("val", FAIL32)
    def ok(s): log(s, "size", term(a[1])); return 0
    return either(E, st, f, ins, ok, FAIL32, "ftruncate")


def h_mmap(E, st, f, a, ins):
    if not fd_ok(E, st, a[4], ins, "mmap"): return ("val", FAIL64)
    def ok(s):
        o = s.new(1 << 48, "map"); take(s, ("mapping", o), term(a[1])); log(s, "map", term(a[1]), term(a[5]), a[2], a[3]); return Ptr(o, 0)
    return either(E, st, f, ins, ok, FAIL64, "mmap")


def h_munmap(E, st, f, a, ins):
    p = a[0]; k = ("mapping", p.obj) if isinstance(p, Ptr) else None
    if k in live(st):
        n = term(a[1])
        if n is None or n != live(st)[k] or p.off != 0: wrong(E, st, ins, "unmap-part", "a mapping of %s bytes is given back as %s bytes" % (live(st)[k], n if n is not None else "unknown"))
        drop(st, k)
    elif isinstance(p, Ptr) and p.obj in st.mem and st.mem[p.obj].tag == "map": wrong(E, st, ins, "unmapped-twice", "a mapping is given back twice")
    elif not st.mon["failed"]: wrong(E, st, ins, "unmap", "something that is not mapped is unmapped")
    return ("val", 0)


def h_unlink(what):
    def h(E, st, f, a, ins):
        k = (what, text(E, st, a[0]))
        if k in live(st): drop(st, k)
        elif st.mon.get("foreign"): wrong(E, st, ins, "unlink-foreign", "the name %s is removed although it belongs to another session" % (k[1],))
        elif st.mon["role"] != 1: wrong(E, st, ins, "unlink", "stage %d removes a name that it did not create" % st.mon["role"])
        elif not st.mon["failed"]: wrong(E, st, ins, "unlink", "the name %s is removed although it was not created" % (k[1],))
        return ("val", 0)
    return h


def h_sem_open(E, st, f, a, ins):
    nm = text(E, st, a[0]); create = isinstance(a[1], int) and bool(a[1] & 0o100); init = a[3] if create and len(a) > 3 else None
    def ok(s):
        o = s.new(32, "sem"); take(s, ("semaphore", o)); log(s, "sem_open", nm, create, init)
        if create: take(s, ("semaphore name", nm))
        return Ptr(o, 0)
    if create and st.mon["faults"]:                 # the name is in use: then the memory's name is another session's as well
        s = st.fork(); s.mon["failed"] = s.mon["failed"] + (("sem_open", E.loc(ins)),); s.mon["errno"] = 17; s.note(ins, "sem_open fails, the name exists")
        s.mon["live"] = {k: v for k, v in live(s).items() if k[0] != "memory name"}
        s.mon["foreign"] = True
        kind, alts = either(E, st, f, ins, ok, 0, "sem_open")
        return (kind, alts + [(s, ("val", 0))])
    return either(E, st, f, ins, ok, 0, "sem_open")


def h_errno(E, st, f, a, ins):
    o = st.new(4, "errno"); v = st.mon.get("errno")
    st.mem[o].cells[0] = (4, v if v is not None else 24)
    return ("val", Ptr(o, 0))


def h_sem_close(E, st, f, a, ins):
    k = ("semaphore", a[0].obj) if isinstance(a[0], Ptr) else None
    if k in live(st): drop(st, k)
    elif not st.mon["failed"]: wrong(E, st, ins, "sem-closed", "a semaphore is closed that is not open")
    return ("val", 0)


def h_create(E, st, f, a, ins):
    p = a[0]
    def ok(s):
        h = H("thread", fresh(s)); take(s, ("thread", h.n)); E.store(s, p, h, 8, ins)
        log(s, "thread"); return 0
    return either(E, st, f, ins, ok, 11, "pthread_create")


def h_join(E, st, f, a, ins):
    h = a[0]
    if isinstance(h, H) and ("thread", h.n) in live(st): drop(st, ("thread", h.n)); return ("val", 0)
    if isinstance(h, H): wrong(E, st, ins, "joined-twice", "a worker is waited for twice")
    else: wrong(E, st, ins, "joined", "a worker is waited for that was never started")
    return ("val", 3)


def h_print(E, st, f, a, ins):
    b = 2 if f.name == "snprintf" else 1
    fmt = "".join(x for x in text(E, st, a[b]).p if isinstance(x, str)); args = list(a[b + 1:]); out = []
    for m in re.finditer(r"%([a-z]+)|[^%]+|%%", fmt):
        if m.group(1) is None: out.append("%" if m.group() == "%%" else m.group())
        elif m.group(1) == "s": out.extend(text(E, st, args.pop(0)).p)
        else:
            v = args.pop(0); out.append(str(v) if isinstance(v, int) else repr(v))
    o = st.wobj(a[0].obj); n = a[1] if b == 2 and isinstance(a[1], int) else 256
    E.clear_range(o, a[0].off, n); o.cells[a[0].off] = (n, join(out))
    return ("val", TOP)


def zero(E, st, f, a, ins): return ("val", 0)
def void(E, st, f, a, ins): return ("val", None)
def some(n): return lambda E, st, f, a, ins: ("val", atom(n))


SYS = [(r"^open(64)?$", h_open), (r"^shm_open$", h_shm_open), (r"^close$", h_close), (r"^(__fx|f)stat(64)?$", h_fstat), (r"^ftruncate(64)?$", h_ftruncate), (r"^mmap(64)?$", h_mmap), (r"^munmap$", h_munmap),
       (r"^__errno_location$", h_errno),
       (r"^shm_unlink$", h_unlink("memory name")), (r"^sem_unlink$", h_unlink("semaphore name")), (r"^sem_open$", h_sem_open), (r"^sem_close$", h_sem_close),
       (r"^pthread_create$", h_create), (r"^pthread_join$", h_join), (r"^pthread_attr_\w+$", zero), (r"^pthread_detach$", zero), (r"^clock$", some("clock")), (r"^getpid$", lambda E, st, f, a, ins: ("val", atom("pid" if st.mon["role"] == 1 else "own pid"))), (r"^s(n)?printf$", h_print),
       (r"^__errno_location$", lambda E, st, f, a, ins: ("val", Ptr(st.new(4, "errno"), 0))), (r"^strerror$", lambda E, st, f, a, ins: ("val", TOP)),
       (r"^std::atomic_thread_fence", void), (r"^Centaurus::SimpleException::", void), (r"^(\S+ )?std::__cxx11::basic_string<.*>::", void), (r"^std::(__cxx11::)?basic_string<.* std::operator\+", void), (r"^std::(__cxx11::)?to_string", void),
       (r"^std::allocator<char>::", void), (r"^std::__new_allocator<char>::", void)]


class Session:
    """one stage (or another owner of resources) from construction to destruction"""
    def __init__(self, mod, cls, role, args, faults):
        self.mod = mod; self.cls = cls; self.role = role; self.args = args; self.faults = faults; self.paths = 0
        self.size = mod.types[cls]["size"] if cls in mod.types else None
        if not self.size: raise AnalysisBroken("no layout of " + cls)
        last = cls.split("::")[-1]
        cs = [f for f in mod.functions.values() if f.defined and re.match(re.escape(cls) + r"::" + last + r"\((?!%s( const)?&)" % re.escape(cls), f.dem)]
        ds = [f for f in mod.functions.values() if f.defined and f.dem == "%s::~%s()" % (cls, last) and "D0Ev" not in f.name]
        if not cs or not ds: raise AnalysisBroken("no constructor or destructor of %s in the code" % cls)
        self.ctor = sorted(cs, key=lambda f: ("C1" not in f.name, f.name))[0]; self.dtor = sorted(ds, key=lambda f: ("D1" not in f.name, f.name))[0]
        self.E = Engine(mod, SysDomain(), [(re.compile(p), h) for p, h in SYS], max_time=300)
        self.E.key = self.nokey; self.u = 0; self.E.maxdepth = 60

    def nokey(self, st): self.u += 1; return self.u

    def method(self, name):
        """the method a caller reaches on this class"""
        c = self.cls; todo = [c]
        while todo:
            c = todo.pop(0)
            fs = [f for f in self.mod.functions.values() if f.defined and f.dem == "%s::%s()" % (c, name)]
            if fs: return fs[0]
            todo += [k[1] for o, k in self.mod.types.get(c, {}).get("bases", ())]
        raise AnalysisBroken("no method %s of %s" % (name, self.cls))

    def call(self, s, f, args):
        s.frames = []
        self.E.start(s, f, args)
        return list(self.E.run([s]))

    def begin(self):
        st = State(); st.mon.update(live={}, log=(), n=0, bad=(), failed=(), role=self.role, faults=self.faults)
        o = st.new(self.size, "heap"); st.trace = None
        n = st.new(16, "file"); st.mem[n].cells[0] = (16, Name([("the input file",)]))
        return st, Ptr(o, 0), Ptr(n, 0)

    def build(self):
        """[(kind, state, this)]"""
        st, this, name = self.begin()
        out = []
        for kind, s, v in self.call(st, self.ctor, [this] + self.args(name)): out.append((kind, s, this)); self.paths += 1
        return out


def leftovers(st): return sorted("%s%s" % (k[0], " " + str(k[1]) if isinstance(k[1], Name) else "") for k in live(st))


def stage_args(role):
    """parameters in the order of the constructor's signature, by kind"""
    size, num, pid = atom("bank size"), atom("bank count"), atom("pid")
    if role == 1: return lambda f: [f, 0, size, num, 0, 0]
    return lambda f: [f, size, num, pid, 0, 0]


OWNERS = [("tool build", "run.cpp", (), "Centaurus::Stage%dRunner", r) for r in (1, 2, 3)] + [("python build", "run.cpp", ("-DPYCENTAURUS=1",), "Centaurus::Stage%dRunner", r) for r in (2, 3)] + \
         [("recursive build", "rec.cpp", (), "Centaurus::Stage%dRunner", r) for r in (2, 3)] + [("mapped file", "core.cpp", (), "Centaurus::MappedFileInput", 0)]


def owners():
    """[(title, Session factory(faults))]"""
    for build, src, defs, cls, role in OWNERS:
        mod = ir.compile_tu(ir.VERIF + "/tu/" + src, defs)
        c = cls % role if role else cls
        args = stage_args(role) if role else (lambda f: [f])
        yield "%s, %s" % (c.split("::")[-1], build), c, role, (lambda faults, mod=mod, c=c, role=role, args=args: Session(mod, c, role, args, faults))


def lives(S):
    """every life of the object: (what happened, state, kind of the last step, failures before it, the failing step's name)"""
    for kind, s, this in S.build():
        yield "construction", s, kind
        if kind != "ret" or s.mon["failed"]: continue
        for kk, ss, _ in S.call(s.fork(), S.dtor, [this]): yield "construction, destruction", ss, kk
        if not S.role: continue
        for k2, s2, _ in S.call(s.fork(), S.method("start"), [this]):
            yield "construction, start", s2, k2
            if k2 == "throw":
                for kk, ss, _ in S.call(s2.fork(), S.dtor, [this]): yield "construction, failed start, destruction", ss, kk
            if k2 != "ret" or s2.mon["failed"]: continue
            for k3, s3, _ in S.call(s2.fork(), S.method("wait"), [this]):
                if k3 != "ret": yield "construction, start, wait", s3, k3; continue
                for kk, ss, _ in S.call(s3, S.dtor, [this]): yield "construction, start, wait, destruction", ss, kk
