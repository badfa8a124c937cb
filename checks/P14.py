"""P14: what a Python handler returns reaches the handler of the enclosing rule, once, in order, over all banks and workers."""
import sys, os, itertools, copy, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import ir, report
from ir import AnalysisBroken
from pyint import *

PKG = ir.REPO + "/src/python/centaurus"
NAMES = ["Root", "Pair", "Item", "Leaf"]
for _c in (Lin, Opaque, Tok, Func, Cls): _c.__deepcopy__ = lambda self, memo: self
sys.setrecursionlimit(20000)


class Shared(Host):
    def __deepcopy__(self, memo): return self


class Fn(Shared):
    def __init__(self, fn): self.fn = fn
    def __call__(self, *a, **k): return self.fn(*a, **k)


class Queue(Shared):
    n = 0
    def __init__(self, world): self._w = world; self._q = []; Queue.n += 1; self._id = Queue.n
    def put(self, v, *a, **k):
        def chk(x):
            if isinstance(x, PList): x.given = "a list is changed after it was put into a queue, which may send it later"; [chk(y) for y in x.items]
            elif isinstance(x, (tuple,)): [chk(y) for y in x]
            elif isinstance(x, (PIter, Func, Bound, Cls, Shared)): raise Wrong("%r cannot be sent to another process" % (x,))
        chk(v); self._q.append(v)
    put_nowait = put
    def get(self, *a, **k):
        if not self._q: self._w.others()
        if not self._q: raise Blocked()
        v = self._q.pop(0)
        def cp(x):
            if isinstance(x, PList): return PList([cp(y) for y in x.items], x.kind)
            return tuple(cp(y) for y in x) if isinstance(x, tuple) else x
        return cp(v)
    def empty(self): return not self._q
    def close(self): pass
    def join_thread(self): pass


class Proc(Shared):
    def __init__(self, world, target=None, args=(), kwargs=None, **k): self._w = world; self._t = target; self._a = list(args); self._kw = kwargs or {}; self._child = None; self._ended = False; self.pid = 7; self.daemon = k.get("daemon", False)
    def start(self):
        if self._child is not None: raise Wrong("a worker process is started twice")
        self._child = copy.deepcopy((self._t, self._a, self._kw)); self._w.procs.append(self)
    def join(self, *a):
        self._w.others()
        if not self._ended: raise Wrong("stop waits for a worker that does not end")
    def is_alive(self): return not self._ended
    def terminate(self): pass


class Runner(Shared):
    def __init__(self, stage, args): self.stage = stage; self.args = args; self.cb = None; self.window = Lin({"window%d" % next(Runner.c): 1})
    c = itertools.count()


class Ptr(Shared):
    def __init__(self, v): self.contents = v; self._v = v
    def item(self, i):
        if i != 0: raise Wrong("reads element %r of an array of one" % (i,))
        return self._v


class Rec(Shared):
    def __init__(self, id, start, end): self.id = id; self.start = start; self.end = end


class Bytes(Shared):
    def __init__(self, a, n): self.a = a; self.n = n
    def decode(self, *a, **k): return self
    def item(self, i): return self


class Addr(Shared):
    def __init__(self, v): self.value = v


class Node:
    def __init__(self, rule, kids, ret): self.rule = rule; self.kids = kids; self.ret = ret; self.seen = 0
    def show(self): return "%s%s(%s)" % (NAMES[self.rule - 1], {None: "->None"}.get(self.ret, "" if self.ret is None or self.ret.truthy else "->false value"), " ".join(k.show() for k in self.kids))
    def all(self): return [self] + [x for k in self.kids for x in k.all()]


class World:
    """one session: the library side is played by the rules of P17-P21"""
    def __init__(self, handlers, default):
        self.procs = []; self.stack = []; self.runs = []; self.now = None; self.handlers = handlers; self.default = default; self.machines = list(enumerate(NAMES, 1)); self.probe = None
        self.it = Interp(PKG, self.modules())
    def modules(self):
        w = self
        class NS(Shared):
            def __init__(self, **k): self.__dict__.update(k)
            def pattr(self, n): return self.__dict__[n] if n in self.__dict__ else Opaque(n)
        def exit_(*a): raise Raise("SystemExit", "sys.exit")
        dq = lambda v=(), *a: PList(w.it.listed(v), "deque")
        ch = Fn(lambda *vs: PIter(PList([x for v in vs for x in w.it.listed(v)])))
        ch.from_iterable = lambda v: PIter(PList([x for u in w.it.listed(v) for x in w.it.listed(u)]))
        def islice(v, *a):
            it = w.it.iter(v); lo, hi = (0, a[0]) if len(a) == 1 else a[:2]; out = []
            for i in range(hi if hi is not None else 10**5):
                try: x = it.nxt()
                except StopIteration: break
                if i >= lo: out.append(x)
            return PIter(PList(out))
        it_ = NS(chain=ch, islice=islice, repeat=lambda x, n: PIter(PList([x] * n)), count=lambda a=0: PIter(iter(range(a, 10**5))))
        lib = Lib(w)
        def string_at(a, n=-1): return Bytes(a.value if isinstance(a, Addr) else a, n)
        return {"os": NS(getpid=lambda: Lin({"master_pid": 1}), getenv=lambda *a: "", system=lambda *a: 0, path=NS(join=lambda *a: "lib"), environ=NS(get=lambda *a: "")),
                "sys": NS(platform="linux", exit=exit_), "platform": NS(uname=lambda: ("Linux",), system=lambda: "Linux"), "collections": NS(deque=dq, OrderedDict=lambda *a: w.it.b_dict(*a)), "itertools": it_, "functools": NS(partial=lambda f, *a, **k: Fn(lambda *b, **l: w.it.call(f, list(a) + list(b), dict(k, **l)))),
                "multiprocessing": NS(Queue=lambda *a: Queue(w), SimpleQueue=lambda *a: Queue(w), Process=lambda *a, **k: Proc(w, *a, **k)),
                "ctypes": NS(CDLL=lambda *a, **k: lib, CFUNCTYPE=lambda *a, **k: Fn(lambda f: f), c_void_p=Addr2, string_at=string_at, POINTER=lambda t: Opaque("pointer type"), Structure=Opaque("Structure"), cast=lambda a, t: a)}
    # processes
    def others(self):
        for p in self.procs:
            if p not in self.stack and not p._ended:
                self.stack.append(p)
                try:
                    t, a, k = p._child; self.it.call(t, a, k); p._ended = True
                except Blocked: pass
                finally: self.stack.pop()
    # library
    def start(self, r):
        if r.stage == 1: self.begun = True; return
        if r.cb is None: raise Wrong("a runner of stage %d is started without listeners" % r.stage)
        if self.script is not None: return self.script(self, r)
        if r.stage == 2:
            if self.taken: return
            self.taken = True
            for b, markers in enumerate(self.banks): self.left.append(self.stage2(r, b, markers))
        else: self.stage3(r)
    def transfer(self, r, a, b):
        self.now = None
        self.it.call(r.cb[1], [a, b])
    def reduce(self, r, node, pend, argc):
        self.now = (r, node); node.seen += 1
        before = len(self.called)
        v = self.it.call(r.cb[0], [Ptr(Rec(node.rule, Lin({"start%d" % node.no: 1}), Lin({"end%d" % node.no: 1}))), Ptr(pend), argc])
        self.now = None
        if len(self.called) != before + 1: raise Wrong("the handler of %s is called %d times for one symbol" % (NAMES[node.rule - 1], len(self.called) - before))
        if isinstance(v, bool): v = int(v)
        if not isinstance(v, int): raise Wrong("the reduction callback answers %r, the library needs a number" % (v,))
        if (v != 0) != (node.ret is not None): raise Wrong("the handler of %s returned %s, the library is told %s" % (NAMES[node.rule - 1], "a value" if node.ret is not None else "None", "of a value" if v else "there is none"))
        return v
    def stage2(self, r, b, markers):
        tags = []; starts = []
        self.transfer(r, -1, b)
        for kind, n in markers:
            if kind == "S": tags.append(("S", n)); starts.append(n)
            elif not starts: tags.append(("E", n))
            else: self.red(r, tags, n, [0]); starts.pop()
        self.transfer(r, b % self.bank_num, -1)
        return tags
    def red(self, r, tags, n, pend):
        argc = tags.pop()[1] if tags and tags[-1][0] == "V" else 0
        v = self.reduce(r, n, pend[0], argc); pend[0] = 0
        tags.pop()
        if v: self.vals(tags, 1)
    def vals(self, tags, k):
        if tags and tags[-1][0] == "V": tags[-1] = ("V", tags[-1][1] + k)
        else: tags.append(("V", k))
    def stage3(self, r):
        if len(self.left) != len(self.banks): self.others()
        if len(self.left) != len(self.banks): raise Blocked()
        self.transfer(r, 0, 0); tags = list(self.left[0]); pend = [0]
        for b in range(1, len(self.banks)):
            self.transfer(r, b % self.bank_num, b)
            for t in self.left[b]:
                if t[0] == "S": tags.append(t)
                elif t[0] == "E": self.red(r, tags, t[1], pend)
                else: self.vals(tags, t[1]); pend[0] += t[1]
    # handlers
    def make_handler(self):
        w = self
        class H(Shared):
            def pattr(self, n):
                if n.startswith("parse") and n[5:] in w.handlers or n == "defaultact" and w.default: return Fn(lambda ctx: w.act(n, ctx))
                raise Raise("AttributeError", n)
        return H()
    def act(self, method, ctx):
        if self.now is None: raise Wrong("a handler is called outside a reduction")
        r, node = self.now; name = NAMES[node.rule - 1]; self.called.append(node); it = self.it
        want = "parse" + name if name in self.handlers else "defaultact"
        if method != want: raise Wrong("the handler for %s is %s, called was %s" % (name, want, method))
        exp = self.probe if self.probe is not None else [k.ret for k in node.kids if k.ret is not None]; k = len(exp)
        if it.b_len(ctx) != k: raise Wrong("the handler of %s is told of %s values, %d are its own" % (name, it.b_len(ctx), k))
        for i in list(range(k)) + list(range(-k, 0)):
            g = it.getitem(ctx, i)
            if g is not exp[i]: raise Wrong("value %d of %s should be %r, it is %r" % (i, name, exp[i], g))
        for i in (k, -k - 1):
            try: g = it.getitem(ctx, i)
            except Raise as e:
                if e.kind != "IndexError": raise
            else: raise Wrong("value %d of %s, which has %d, is %r: the value of another rule" % (i, name, k, g))
        g = it.listed(ctx)
        if len(g) != k or any(x is not y for x, y in zip(g, exp)): raise Wrong("the values of %s should be %r, going through them gives %r" % (name, exp, g))
        for m in ("readbytes", "read"):
            b = it.call(it.getattr(ctx, m), [])
            s = Lin({"start%d" % node.no: 1}); e = Lin({"end%d" % node.no: 1})
            if not isinstance(b, Bytes) or not r.window + s == b.a or not Lin.of(b.n) == e - s: raise Wrong("%s of %s reads %r bytes at %r, the symbol's text is %r bytes at %r" % (m, name, getattr(b, "n", b), getattr(b, "a", b), e - s, r.window + s))
        return node.ret
    # session
    def prepare(self, workers):
        self.bank_num = workers * 2; self.called = []; self.script = None
        it = self.it; g = it.load("context")
        self.ctx = it.call(g["Context"], ["grammar.cgr"])
        it.call(it.getattr(self.ctx, "attach"), [self.make_handler()])
        it.call(it.getattr(self.ctx, "start"), [workers])
    def parse(self, tree, cuts):
        ms = []
        def walk(n): ms.append(("S", n)); [walk(k) for k in n.kids]; ms.append(("E", n))
        walk(tree)
        for i, n in enumerate(tree.all()): n.no = i; n.seen = 0
        self.banks = [ms[a:b] for a, b in zip((0,) + cuts, cuts + (len(ms),))]; self.left = []; self.taken = False
        try: v = self.it.call(self.it.getattr(self.ctx, "parse"), ["input"])
        except Blocked: raise Wrong("parse waits for a result that nobody sends")
        for n in tree.all():
            if n.seen != 1: raise AnalysisBroken("played session reduced %s %d times" % (n.show(), n.seen))
        if v is not tree.ret: raise Wrong("parse returns %r, the outermost handler returned %r" % (v, tree.ret))
    def stop(self):
        if any(p._ended for p in self.procs): raise Wrong("a worker ends before it is told to")
        self.it.call(self.it.getattr(self.ctx, "stop"), [])
        self.others()
        if not all(p._ended for p in self.procs): raise Wrong("a worker goes on after stop")


class Lib(Shared):
    def __init__(self, w): self._w = w
    def pattr(self, n):
        if n not in self.__dict__: self.__dict__[n] = Fn(lambda *a: self.call(n, a))
        return self.__dict__[n]
    def call(self, n, a):
        w = self._w
        if n == "GrammarEnumMachines":
            for i, name in w.machines: w.it.call(a[1], [name, i])
            return None
        if n.startswith("Stage") and n.endswith("RunnerCreate"): return Runner(int(n[5]), a)
        if n == "RunnerGetWindow": return a[0].window
        if n == "RunnerRegisterListener": a[0].cb = (a[1], a[2]); return None
        if n == "RunnerStart": return w.start(a[0])
        return Opaque(n)


class _A(Shared):
    def __call__(self, v=None): return Addr(v)


Addr2 = _A()


def shapes(n):
    if n == 1: return [()]
    out = []
    def forests(m):
        if m == 0: return [()]
        r = []
        for k in range(1, m + 1):
            for t in shapes(k):
                for f in forests(m - k): r.append((t,) + f)
        return r
    return forests(n - 1)


def build(shape, rets, c):
    i = next(c); kids = None
    n = Node(i % len(NAMES) + 1, [], {0: Tok("v%d" % i), 1: None, 2: Tok("v%d" % i, False)}[rets[i]])
    n.kids = [build(s, rets, c) for s in shape]
    return n


def jobs(thorough):
    out = []
    for n in (1, 2, 3, 4) + ((5,) if thorough else ()):
        for sh in shapes(n):
            masks = list(itertools.product((0, 1, 2), repeat=n)) if n <= 2 or thorough and n == 3 else [(0,) * n, (2,) * n] + [tuple(int(j == i) for j in range(n)) for i in range(n)] + [tuple(1 - int(j == i) for j in range(n)) for i in range(1, n)]
            ps = range(1, 2 * n)
            cuts = [c for k in range(0, (2 * n if n <= 3 or thorough and n == 4 else 4)) for c in itertools.combinations(ps, k)]
            for c in cuts:
                for m in masks: out.append((sh, m, c))
    return out


def session(job, w):
    sh, m, c = job; tree = build(sh, m, itertools.count())
    w.parse(tree, c)
    return tree


def chunk(js):
    out = []; n = 0; vis = set()
    for k in range(0, len(js), 12):
        part = js[k:k + 12]; w = World(set(NAMES) if k % 24 else set(NAMES[:2]), k % 24 == 0)
        w.machines = random.Random(k).sample(w.machines, len(w.machines)) if k % 36 else w.machines
        where = "start of the session"
        try:
            w.prepare(1 + (k // 12) % 2)
            for j in part:
                tr = build(j[0], j[1], itertools.count()); where = "%s, banks cut at %s" % (tr.show(), list(j[2]) or "none")
                w.parse(tr, j[2]); n += 1
            where = "end of the session"; w.stop()
        except (Wrong, Raise) as e:
            out.append((str(e) if isinstance(e, Wrong) else "%s: %s" % (e.kind, e.msg), getattr(e, "first", w.it.last), where, w.it.trace[-6:]))
            if len(out) > 2: break
        vis |= w.it.visited
    return out, n, vis


def unknown(out):
    """stage 3 with an unknown number of values below"""
    n = 0
    for k, s, extra, ret in itertools.product((0, 1, 2), (0, 1, 2, 3), (0, 1, 3), (0, 1, 2)):
        w = World(set(NAMES), False); n += 1
        own = [Tok("a%d" % i) for i in range(k)]; pend = [Tok("p%d" % i) for i in range(s + extra)]
        splits = (pend[:1], [], pend[1:])
        def script(w, r):
            if r.stage == 2: return
            base = Rest("N")
            chans = w.it.getattr(w.ctx, "channels") if False else w.chan
            w.feed(r, [PList([base] + own)] + [PList(x) for x in splits])
            node = Node(2, [], {0: Tok("r"), 1: None, 2: Tok("r", False)}[ret]); node.no = 0
            w.probe = own + pend[:s]; v = w.reduce(r, node, s, k + s)
            m = Node(3, [], Tok("q")); m.no = 1
            w.probe = ([node.ret] if ret != 1 else []) + pend[s:]; w.reduce(r, m, extra, len(w.probe))
            m2 = Node(1, [], None); m2.no = 2
            w.probe = [m.ret]; w.reduce(r, m2, 0, 1)
            raise Blocked()
        try:
            qs = []
            w.prepare(2); w.script = script
            def feed(r, lists):
                for i, l in enumerate(lists):
                    before = None
                    w.inject = l; w.transfer(r, i, i); w.inject = None
            w.feed = feed; w.inject = None; w.chan = None
            old = Queue.get
            def get(self, *a, **kw):
                if w.inject is not None: l, w.inject = w.inject, None; return l
                return old(self, *a, **kw)
            Queue.get = get
            try: w.it.call(w.it.getattr(w.ctx, "parse"), ["input"])
            except Blocked: pass
            finally: Queue.get = old
            if len(w.called) != 3: raise Wrong("the third stage does not get to work")
        except (Wrong, Raise) as e:
            out.append((str(e) if isinstance(e, Wrong) else "%s: %s" % (e.kind, e.msg), w.it.last, "unknown number of values below, %d own, %d to be taken over, %d more waiting" % (k, s, extra), w.it.trace[-6:]))
            return n
    return n


def tables(out):
    """every set of handlers: the right one is taken, a missing one is refused"""
    n = 0
    for present in itertools.product((0, 1), repeat=3):
        for default in (False, True):
            hs = {x for x, p in zip(NAMES, present + (1,)) if p}; n += 1
            w = World(hs, default); missing = [x for x in NAMES if x not in hs] and not default
            try:
                w.prepare(1); tree = build((((),), ()), (0,) * 4, itertools.count())
                w.parse(tree, ())
                if missing: out.append(("a listener without a handler for %s is accepted" % [x for x in NAMES if x not in hs][0], "listener.py", "handlers " + ", ".join(sorted(hs)), []))
            except (Wrong, Raise) as e:
                if not missing or isinstance(e, Raise) and e.kind in ("TypeError", "IndexError", "NameError", "KeyError"): out.append((str(e), w.it.last, "handlers " + ", ".join(sorted(hs)) + (", default" if default else ""), w.it.trace[-6:]))
    return n


def main():
    import multiprocessing as mp
    chk = report.Check("P14", "bounded", TECH)
    js = jobs(chk.tier != "quick")
    parts = [js[i::8] for i in range(8)]
    with mp.Pool(8) as p: res = p.map(chunk, parts)
    vis = set(); total = 0; bad = []
    for o, n, v in res: bad += o; total += n; vis |= v
    u = []; nu = unknown(u); t = []; nt = tables(t)
    for name, lst in (("values", bad), ("below", u), ("handlers", t)):
        for msg, where, sc, tr in lst[:3]:
            chk.violation("python:%s:%s" % (name, where), "%s  (%s)" % (msg, sc), where, tr)
    chk.obligation("python:sessions", not bad, sessions=total, rule="every handler sees the values of its own sub-rules, in order, and nothing else; the result of the outermost is returned")
    chk.obligation("python:unknown depth", not u, situations=nu, rule="the same with any number of values below, in stage 3")
    chk.obligation("python:handler table", not t, sets=nt, rule="parse<Name>, else defaultact, else refused")
    fns = sorted("%s.%s%s" % (m, c + "." if c else "", f) for m, c, f in vis)
    for f in fns: chk.obligation("interpreted:" + f)
    chk.stats["functions"] = fns
    chk.finish("The syntax trees of context.py, corelib.py and listener.py are interpreted from Context() to the result of parse(): processes get a copy of the objects at the time they are started, queues pass copies on, the library's side calls the listeners in the order and with the counts that P17 to P21 establish. Handlers return tokens (true, false, None); every handler must see exactly the tokens of its sub-rules.", min_obl=8,
               assumptions=["the library calls the listeners as P18, P20 and P21 state", "queues deliver in order; handlers do not raise"])


TECH = "abstract interpretation of the Python syntax tree over token values, lists with an unknown part and linear addresses"
report.main(main)
