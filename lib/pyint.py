"""Abstract interpreter for the Python package: statements are read from the syntax tree; what the package does not define itself
(the library, queues, processes, time, logging) is unknown or modelled by the check.  Lists may start with a part of unknown length,
numbers may be linear terms over unknowns, values returned by handlers are tokens of known or unknown truth."""
import ast, operator, os
from ir import AnalysisBroken


class Lin:
    """linear term; every unknown is larger than all constants of the program"""
    def __init__(self, t=None, c=0): self.t = {k: v for k, v in (t or {}).items() if v}; self.c = c
    @staticmethod
    def of(x):
        if isinstance(x, Lin): return x
        if isinstance(x, bool) or isinstance(x, int): return Lin({}, int(x))
        return None
    def simp(self): return self if self.t else self.c
    def add(self, o, s=1):
        o = Lin.of(o)
        if o is None: return NotImplemented
        t = dict(self.t)
        for k, v in o.t.items(): t[k] = t.get(k, 0) + s * v
        return Lin(t, self.c + s * o.c).simp()
    def __add__(self, o): return self.add(o)
    __radd__ = __add__
    def __sub__(self, o): return self.add(o, -1)
    def __neg__(self): return Lin({k: -v for k, v in self.t.items()}, -self.c)
    def __rsub__(self, o): return (-self).add(o)
    def __mul__(self, o):
        if not isinstance(o, int): return NotImplemented
        return Lin({k: v * o for k, v in self.t.items()}, self.c * o).simp()
    __rmul__ = __mul__
    def sign(self):
        if not self.t: return (self.c > 0) - (self.c < 0)
        if all(v > 0 for v in self.t.values()): return 1
        if all(v < 0 for v in self.t.values()): return -1
        raise AnalysisBroken("comparison of unrelated unknowns %s" % self)
    def diff(self, o):
        d = self.add(o, -1)
        if d is NotImplemented: raise AnalysisBroken("comparison of %s with %r" % (self, o))
        return Lin.of(d).sign()
    def __lt__(self, o): return self.diff(o) < 0
    def __le__(self, o): return self.diff(o) <= 0
    def __gt__(self, o): return self.diff(o) > 0
    def __ge__(self, o): return self.diff(o) >= 0
    def __eq__(self, o):
        d = self.add(o, -1) if Lin.of(o) is not None else None
        return d is not None and not isinstance(d, Lin) and d == 0
    def __hash__(self): return hash((tuple(sorted(self.t.items())), self.c))
    def __bool__(self): return self.sign() != 0
    def __repr__(self): return " + ".join("%s%s" % ("" if v == 1 else "%d*" % v, k) for k, v in sorted(self.t.items())) + (" + %d" % self.c if self.c else "")


class Opaque:
    """something the analysis knows nothing about and that does not matter to it"""
    def __init__(self, what): self.what = what
    def __repr__(self): return "<%s>" % self.what
    def __bool__(self): raise AnalysisBroken("a decision depends on %s" % self.what)
    def __iter__(self): raise AnalysisBroken("iteration over %s" % self.what)
    def __hash__(self): return id(self)


def _op(name):
    def f(self, *a): return Opaque("%s of %s" % (name.strip("_"), self.what))
    return f


for _n in "add radd sub rsub mul rmul truediv rtruediv floordiv rfloordiv mod rmod lt le gt ge neg or ror and rand".split():
    setattr(Opaque, "__%s__" % _n, _op(_n))


class Tok:
    """a value made by a handler"""
    def __init__(self, name, truthy=True): self.name = name; self.truthy = truthy
    def __bool__(self): return self.truthy
    def __repr__(self): return self.name


class Rest(Tok):
    """the unknown number of values below"""
    def __init__(self, name): Tok.__init__(self, name); self.n = Lin({name: 1})


class Wrong(Exception):
    """the interpreted code does what the property forbids"""


class Raise(Exception):
    def __init__(self, kind, msg=""): Exception.__init__(self, kind, msg); self.kind = kind; self.msg = msg


class Blocked(Exception): pass
class Ret(Exception):
    def __init__(self, v): self.v = v
class Brk(Exception): pass
class Cont(Exception): pass


class PList:
    def __init__(self, items=(), kind="list"): self.items = list(items); self.kind = kind; self.given = None
    def __repr__(self): return "[%s]" % ", ".join(map(repr, self.items))
    def rest(self):
        if self.items and isinstance(self.items[0], Rest): return self.items[0]
        if any(isinstance(x, Rest) for x in self.items): raise AnalysisBroken("values of unknown number inside a list")
    def len(self):
        r = self.rest()
        return r.n + (len(self.items) - 1) if r else len(self.items)
    def at(self, i):
        r = self.rest(); n = len(self.items)
        if isinstance(i, bool): i = int(i)
        if isinstance(i, Lin):
            d = i - r.n if r else i
            if isinstance(d, Lin): d = -10**6 if d.sign() < 0 else 10**6
            j = d + 1
            if j <= 0: j = 0
        elif isinstance(i, int):
            if r: j = max(n + i, 0) if i < 0 else 0
            else: j = n + i if i < 0 else i
        else: raise AnalysisBroken("index %r" % (i,))
        if not 0 <= j < n: raise Raise("IndexError", "list index out of range")
        return j
    def bound(self, i, default):
        if i is None: return default
        r = self.rest(); n = len(self.items)
        if isinstance(i, bool): i = int(i)
        if isinstance(i, Lin):
            d = i - r.n if r else i
            if isinstance(d, Lin): d = -10**6 if d.sign() < 0 else 10**6
            if d < 0 and r:
                raise Wrong("a slice reaches into the values of other rules")
            return max(0, min(n, d + 1 if r else d))
        if isinstance(i, int):
            if i < 0: return max(0, n + i)
            if r and i > 0: raise Wrong("a slice reaches into the values of other rules")
            return min(n, i)
        raise AnalysisBroken("slice bound %r" % (i,))
    def slice(self, s):
        if s.step not in (None, 1):
            if self.rest(): raise AnalysisBroken("stepped slice")
            return slice(s.start, s.stop, s.step)
        a = self.bound(s.start, 0); b = self.bound(s.stop, len(self.items))
        return slice(a, b)
    def touch(self):
        if self.given: raise Wrong(self.given)


class PIter:
    def __init__(self, src): self.src = src; self.i = 0
    def nxt(self):
        if isinstance(self.src, PList):
            if self.i < len(self.src.items): self.i += 1; return self.src.items[self.i - 1]
            raise StopIteration
        return next(self.src)


class Cls:
    def __init__(self, name, bases, ns): self.name = name; self.bases = bases; self.ns = ns
    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls): out += [c for c in b.mro() if c not in out]
        return out
    def find(self, n, after=None):
        m = self.mro()
        if after is not None: m = m[m.index(after) + 1:]
        for c in m:
            if n in c.ns: return c.ns[n]
    def opaque_base(self): return any(not isinstance(b, Cls) for c in self.mro() for b in c.bases)


class Obj:
    def __init__(self, cls): self.cls = cls; self.attrs = {}
    def __repr__(self): return "<%s>" % self.cls.name


class Func:
    def __init__(self, node, glob, closure=(), cls=None, defaults=(), kwdefaults=None):
        self.node = node; self.glob = glob; self.closure = closure; self.cls = cls; self.defaults = defaults; self.kwdefaults = kwdefaults or {}
        self.static = None
        body = [node.body] if isinstance(node, ast.Lambda) else node.body
        self.gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for s in body for x in walk_local(s))
    def __repr__(self): return getattr(self.node, "name", "lambda")


class Bound:
    def __init__(self, fn, obj): self.fn = fn; self.obj = obj


class Super:
    def __init__(self, cls, obj): self.cls = cls; self.obj = obj


class Host:
    """object of the model: attributes are Python attributes of the subclass, methods are host functions"""
    def pattr(self, n):
        try: return getattr(self, n)
        except AttributeError: raise Raise("AttributeError", n)


def walk_local(n):
    yield n
    if isinstance(n, (ast.FunctionDef, ast.Lambda)): return
    for c in ast.iter_child_nodes(n):
        yield from walk_local(c)


class Interp:
    BIN = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod,
           ast.Pow: operator.pow, ast.BitAnd: operator.and_, ast.BitOr: operator.or_, ast.BitXor: operator.xor, ast.LShift: operator.lshift, ast.RShift: operator.rshift}
    CMP = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge, ast.Eq: operator.eq, ast.NotEq: operator.ne}

    def __init__(self, pkg, modules, override=None):
        self.pkg = pkg; self.modules = modules; self.override = override or {}; self.loaded = {}; self.steps = 0; self.trace = []; self.visited = set(); self.last = None

    # modules
    def load(self, name):
        if name in self.loaded: return self.loaded[name]
        p = os.path.join(self.pkg, name + ".py")
        if not os.path.exists(p): raise AnalysisBroken("module %s is not in the package" % name)
        g = {"__name__": "centaurus." + name, "__file__": name + ".py"}
        self.loaded[name] = g
        tree = ast.parse(open(p).read())
        for s in tree.body: self.stmt(s, Frame(g, [g], None, name))
        for k, v in self.override.items():
            if k in g: g[k] = v
        return g
    def mod(self, name):
        if name in self.modules: return self.modules[name]
        top = name.split(".")[0]
        return self.modules[top] if top in self.modules else Opaque(name)

    # statements
    def block(self, body, f):
        for s in body: self.stmt(s, f)
    def stmt(self, s, f):
        self.steps += 1
        if self.steps > 400000: raise Wrong("a loop does not end")
        self.last = "%s.py:%d" % (f.mod, s.lineno)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None: raise AnalysisBroken("%s.py:%d: statement %s" % (f.mod, s.lineno, type(s).__name__))
        return m(s, f)
    def s_Expr(self, s, f): self.ev(s.value, f)
    def s_Pass(self, s, f): pass
    def s_Global(self, s, f): f.globals_.update(s.names)
    def s_Nonlocal(self, s, f): f.nonlocals.update(s.names)
    def s_Import(self, s, f):
        for a in s.names: f.set(a.asname or a.name.split(".")[0], self.mod(a.name if a.asname else a.name.split(".")[0]))
    def s_ImportFrom(self, s, f):
        if s.level or (s.module or "").startswith("centaurus"):
            g = self.load((s.module or "").split(".")[-1])
            for a in s.names:
                if a.name == "*":
                    for k, v in g.items():
                        if not k.startswith("_"): f.set(k, v)
                elif a.name in g: f.set(a.asname or a.name, g[a.name])
                else: raise Raise("ImportError", a.name)
        else:
            m = self.mod(s.module)
            for a in s.names: f.set(a.asname or a.name, self.getattr(m, a.name))
    def s_FunctionDef(self, s, f): f.set(s.name, self.make_fn(s, f))
    def make_fn(self, s, f):
        fn = Func(s, f.glob, [x for x in f.scopes if x is not f.classns] if not f.is_module() else [], f.cls, [self.ev(d, f) for d in s.args.defaults],
                  {a.arg: self.ev(d, f) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None})
        for d in getattr(s, "decorator_list", []):
            n = d.id if isinstance(d, ast.Name) else None
            if n in ("staticmethod", "classmethod", "property"): fn.static = n
            else: raise AnalysisBroken("decorator %s" % ast.unparse(d))
        fn.mod = f.mod
        return fn
    def s_ClassDef(self, s, f):
        c = Cls(s.name, [self.ev(b, f) for b in s.bases], {})
        g = Frame(f.glob, f.scopes + [c.ns], c, f.mod); g.classns = c.ns
        self.block(s.body, g)
        f.set(s.name, c)
    def s_Return(self, s, f): raise Ret(self.ev(s.value, f) if s.value else None)
    def s_Break(self, s, f): raise Brk()
    def s_Continue(self, s, f): raise Cont()
    def s_Assign(self, s, f):
        v = self.ev(s.value, f)
        for t in s.targets: self.assign(t, v, f)
    def s_AnnAssign(self, s, f):
        if s.value is not None: self.assign(s.target, self.ev(s.value, f), f)
    def s_AugAssign(self, s, f):
        t = s.target
        if isinstance(t, ast.Name): cur = self.ev(ast.Name(t.id, ast.Load()), f); put = lambda v: f.set(t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, f); cur = self.getattr(o, t.attr); put = lambda v: self.setattr(o, t.attr, v)
        else:
            o = self.ev(t.value, f); i = self.ev(t.slice, f); cur = self.getitem(o, i); put = lambda v: self.setitem(o, i, v)
        v = self.ev(s.value, f)
        if isinstance(cur, PList) and isinstance(s.op, ast.Add): cur.touch(); cur.items += self.listed(v); put(cur)
        else: put(self.binop(type(s.op), cur, v))
    def s_Delete(self, s, f):
        for t in s.targets:
            if isinstance(t, ast.Name): f.delete(t.id)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, f)
                if isinstance(o, Obj):
                    if t.attr not in o.attrs: raise Raise("AttributeError", t.attr)
                    del o.attrs[t.attr]
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, f); i = self.ev(t.slice, f)
                if isinstance(o, PList):
                    o.touch()
                    if isinstance(i, slice): del o.items[o.slice(i)]
                    else: del o.items[o.at(i)]
                elif isinstance(o, dict): 
                    if i not in o: raise Raise("KeyError", i)
                    del o[i]
                else: raise AnalysisBroken("del on %r" % (o,))
            elif isinstance(t, (ast.Tuple, ast.List)):
                for e in t.elts: self.s_Delete(ast.copy_location(ast.Delete([e]), s), f)
    def s_If(self, s, f): self.block(s.body if self.truth(self.ev(s.test, f)) else s.orelse, f)
    def s_While(self, s, f):
        try:
            while self.truth(self.ev(s.test, f)):
                self.steps += 1
                if self.steps > 400000: raise Wrong("a loop does not end")
                try: self.block(s.body, f)
                except Cont: pass
        except Brk: return
        self.block(s.orelse, f)
    def s_For(self, s, f):
        it = self.iter(self.ev(s.iter, f))
        try:
            while True:
                try: v = it.nxt()
                except StopIteration: break
                self.assign(s.target, v, f)
                try: self.block(s.body, f)
                except Cont: pass
        except Brk: return
        self.block(s.orelse, f)
    def s_Try(self, s, f):
        try:
            try:
                self.block(s.body, f)
            except Raise as e:
                if not hasattr(e, "first"): e.first = self.last
                self.trace.append("%s: %s %s" % (self.last, e.kind, e.msg))
                for h in s.handlers:
                    if self.catches(h, e, f):
                        if h.name: f.set(h.name, Opaque("exception"))
                        f.handling.append(e)
                        try: self.block(h.body, f)
                        finally: f.handling.pop()
                        return
                raise
            else: self.block(s.orelse, f)
        finally: self.block(s.finalbody, f)
    def catches(self, h, e, f):
        if h.type is None: return True
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        for t in ts:
            n = ast.unparse(t).split(".")[-1]
            if n == e.kind or n == "BaseException" or n == "Exception" and e.kind not in ("SystemExit", "KeyboardInterrupt", "GeneratorExit"): return True
            if n == "LookupError" and e.kind in ("IndexError", "KeyError"): return True
        return False
    def s_Raise(self, s, f):
        if s.exc is None:
            if f.handling: raise f.handling[-1]
            raise Raise("RuntimeError", "no active exception")
        n = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
        raise Raise(ast.unparse(n).split(".")[-1], ast.unparse(s.exc))
    def s_With(self, s, f):
        for i in s.items:
            v = self.ev(i.context_expr, f)
            if isinstance(v, Obj): v = self.call(self.getattr(v, "__enter__"), [])
            if i.optional_vars is not None: self.assign(i.optional_vars, v, f)
        self.block(s.body, f)
    def s_Assert(self, s, f):
        if not self.truth(self.ev(s.test, f)): raise Raise("AssertionError", ast.unparse(s.test))
    def assign(self, t, v, f):
        if isinstance(t, ast.Name): f.set(t.id, v)
        elif isinstance(t, ast.Attribute): self.setattr(self.ev(t.value, f), t.attr, v)
        elif isinstance(t, ast.Subscript): self.setitem(self.ev(t.value, f), self.ev(t.slice, f), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.listed(v)
            st = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if st:
                k = st[0]; m = len(t.elts) - k - 1
                for e, x in zip(t.elts[:k], vs[:k]): self.assign(e, x, f)
                self.assign(t.elts[k].value, PList(vs[k:len(vs) - m]), f)
                for e, x in zip(t.elts[k + 1:], vs[len(vs) - m:]): self.assign(e, x, f)
                return
            if len(vs) != len(t.elts): raise Raise("ValueError", "unpacking")
            for e, x in zip(t.elts, vs): self.assign(e, x, f)
        else: raise AnalysisBroken("assignment to %s" % ast.unparse(t))

    # expressions
    def ev(self, e, f):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None: raise AnalysisBroken("%s: expression %s" % (f.mod, type(e).__name__))
        return m(e, f)
    def e_Constant(self, e, f): return e.value
    def e_Name(self, e, f):
        for sc in reversed(f.scopes):
            if e.id in sc: return sc[e.id]
        if e.id in f.glob: return f.glob[e.id]
        b = getattr(self, "b_" + e.id, None)
        if b is not None: return b
        if e.id.endswith(("Error", "Exception", "Exit", "Interrupt", "StopIteration")): return Opaque(e.id)
        if e.id in ("object", "str", "int", "bool", "float", "bytes"): return {"object": Opaque("object")}.get(e.id, Opaque(e.id))
        import builtins
        if hasattr(builtins, e.id):
            raise AnalysisBroken("builtin %s is not modelled" % e.id)
        raise Raise("NameError", e.id)
    def e_Attribute(self, e, f): return self.getattr(self.ev(e.value, f), e.attr)
    def e_Subscript(self, e, f): return self.getitem(self.ev(e.value, f), self.ev(e.slice, f))
    def e_Slice(self, e, f): return slice(*[self.ev(x, f) if x is not None else None for x in (e.lower, e.upper, e.step)])
    def e_Index(self, e, f): return self.ev(e.value, f)
    def e_Tuple(self, e, f): return tuple(self.elts(e.elts, f))
    def e_List(self, e, f): return PList(self.elts(e.elts, f))
    def e_Set(self, e, f): return set(self.elts(e.elts, f))
    def elts(self, es, f):
        out = []
        for x in es:
            if isinstance(x, ast.Starred): out += self.listed(self.ev(x.value, f))
            else: out.append(self.ev(x, f))
        return out
    def e_Dict(self, e, f): return {self.ev(k, f): self.ev(v, f) for k, v in zip(e.keys, e.values)}
    def e_BinOp(self, e, f): return self.binop(type(e.op), self.ev(e.left, f), self.ev(e.right, f))
    def binop(self, op, a, b):
        if op is ast.Mod and isinstance(a, str): return Opaque("text") if self.has_abs(b) else self.host(lambda: a % b)
        if isinstance(a, PList):
            if op is ast.Add and isinstance(b, PList): return PList(a.items + b.items)
            if op is ast.Mult and isinstance(b, int): return PList(a.items * b)
            raise Raise("TypeError", "list operand")
        if isinstance(b, PList) and op is ast.Mult and isinstance(a, int): return PList(b.items * a)
        if isinstance(a, (Opaque, Tok)) or isinstance(b, (Opaque, Tok)): return Opaque("arithmetic")
        if op is ast.Mod and isinstance(a, Lin): raise AnalysisBroken("remainder of an unknown")
        if isinstance(a, (Obj, Host, Func, Bound, dict)) or isinstance(b, (Obj, Host, Func, Bound)): raise AnalysisBroken("operator on %r, %r" % (a, b))
        return self.host(lambda: self.BIN[op](a, b))
    def has_abs(self, b): return isinstance(b, (Opaque, Lin, Obj, Tok, Host, PList)) or isinstance(b, tuple) and any(self.has_abs(x) for x in b)
    def host(self, fn):
        try: return fn()
        except (TypeError, ValueError, KeyError, IndexError, ZeroDivisionError, AttributeError) as e: raise Raise(type(e).__name__, str(e))
    def e_UnaryOp(self, e, f):
        v = self.ev(e.operand, f)
        if isinstance(e.op, ast.Not): return not self.truth(v)
        if isinstance(e.op, ast.USub): return self.host(lambda: -v)
        return v if isinstance(e.op, ast.UAdd) else self.host(lambda: ~v)
    def e_BoolOp(self, e, f):
        for x in e.values:
            v = self.ev(x, f)
            if x is e.values[-1]: return v
            if self.truth(v) != isinstance(e.op, ast.And): return v
    def e_Compare(self, e, f):
        a = self.ev(e.left, f); r = True
        for op, x in zip(e.ops, e.comparators):
            b = self.ev(x, f)
            if isinstance(op, (ast.Is, ast.IsNot)):
                r = a is b or isinstance(a, (int, str, bool)) and isinstance(b, (int, str, bool)) and type(a) is type(b) and a == b
                if isinstance(op, ast.IsNot): r = not r
            elif isinstance(op, (ast.In, ast.NotIn)):
                if isinstance(b, PList): r = any(self.same(y, a) for y in b.items)
                elif isinstance(b, Opaque): return Opaque("membership")
                elif isinstance(b, (dict, set, tuple, str, range)): r = self.host(lambda: a in b)
                else: r = any(self.same(y, a) for y in self.listed(b))
                if isinstance(op, ast.NotIn): r = not r
            elif isinstance(op, (ast.Eq, ast.NotEq)):
                if isinstance(a, Opaque) or isinstance(b, Opaque): return Opaque("comparison")
                r = self.same(a, b)
                if isinstance(op, ast.NotEq): r = not r
            else:
                if isinstance(a, Opaque) or isinstance(b, Opaque): return Opaque("comparison")
                if a is None or b is None: raise Raise("TypeError", "comparison with None")
                r = self.host(lambda: self.CMP[type(op)](a, b))
            if not r: return False
            a = b
        return r
    def same(self, a, b):
        if isinstance(a, Tok) and not isinstance(b, Tok) and b is not None and not isinstance(b, (str, PList)) and not a.truthy: raise AnalysisBroken("a handler's value is compared")
        if isinstance(a, PList) and isinstance(b, PList): return len(a.items) == len(b.items) and all(self.same(x, y) for x, y in zip(a.items, b.items))
        return a == b
    def e_IfExp(self, e, f): return self.ev(e.body if self.truth(self.ev(e.test, f)) else e.orelse, f)
    def e_NamedExpr(self, e, f): v = self.ev(e.value, f); f.set(e.target.id, v); return v
    def e_Lambda(self, e, f): fn = self.make_fn(e, f); return fn
    def e_JoinedStr(self, e, f):
        ps = [self.ev(v.value, f) if isinstance(v, ast.FormattedValue) else v.value for v in e.values]
        return "".join(map(str, ps)) if not self.has_abs(tuple(ps)) else Opaque("text")
    def e_Starred(self, e, f): raise AnalysisBroken("starred expression")
    def e_ListComp(self, e, f): out = []; self.comp(e.generators, f, lambda g: out.append(self.ev(e.elt, g))); return PList(out)
    def e_SetComp(self, e, f): out = set(); self.comp(e.generators, f, lambda g: out.add(self.ev(e.elt, g))); return out
    def e_GeneratorExp(self, e, f): return PIter(self.e_ListComp(e, f))
    def e_DictComp(self, e, f):
        out = {}
        self.comp(e.generators, f, lambda g: out.__setitem__(self.ev(e.key, g), self.ev(e.value, g))); return out
    def comp(self, gens, f, leaf):
        g = f.child()
        def go(i):
            if i == len(gens): return leaf(g)
            it = self.iter(self.ev(gens[i].iter, g))
            while True:
                try: v = it.nxt()
                except StopIteration: return
                self.assign(gens[i].target, v, g)
                if all(self.truth(self.ev(c, g)) for c in gens[i].ifs): go(i + 1)
        go(0)
    def e_Yield(self, e, f): f.yielded.append(self.ev(e.value, f) if e.value else None)
    def e_YieldFrom(self, e, f): f.yielded += self.listed(self.ev(e.value, f))
    def e_Call(self, e, f):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not any("super" in s for s in f.scopes):
            a = [self.ev(x, f) for x in e.args]
            return Super(a[0], a[1]) if a else Super(f.cls, f.self_())
        if isinstance(e.func, ast.Name) and e.func.id == "locals": raise AnalysisBroken("locals()")
        fn = self.ev(e.func, f)
        args = self.elts(e.args, f); kw = {}
        for k in e.keywords:
            v = self.ev(k.value, f)
            if k.arg is None: kw.update(v)
            else: kw[k.arg] = v
        return self.call(fn, args, kw)
    def call(self, fn, args, kw=None):
        kw = kw or {}
        if isinstance(fn, Bound): return self.call(fn.fn, [fn.obj] + list(args), kw)
        if isinstance(fn, Cls):
            o = Obj(fn); init = fn.find("__init__")
            if init is not None: self.call(init, [o] + list(args), kw)
            elif fn.opaque_base() is False and args: raise Raise("TypeError", "arguments")
            return o
        if isinstance(fn, Opaque):
            if any(isinstance(x, (Func, Bound, Cls, PIter)) for x in list(args) + list(kw.values())): raise AnalysisBroken("%s is given a function and is not modelled" % fn.what)
            return Opaque(fn.what + "()")
        if isinstance(fn, Func):
            n = fn.node; a = n.args; sc = {}
            names = [x.arg for x in a.posonlyargs + a.args]
            if len(args) > len(names) and not a.vararg: raise Raise("TypeError", "%r takes %d arguments, %d given" % (fn, len(names), len(args)))
            for k, v in zip(names, args): sc[k] = v
            if a.vararg: sc[a.vararg.arg] = tuple(args[len(names):])
            extra = {}
            for k, v in kw.items():
                if k in sc and k in names: raise Raise("TypeError", "argument %s given twice" % k)
                if k in names or k in [x.arg for x in a.kwonlyargs]: sc[k] = v
                elif a.kwarg: extra[k] = v
                else: raise Raise("TypeError", "argument %s" % k)
            if a.kwarg: sc[a.kwarg.arg] = extra
            for k, d in zip(names[len(names) - len(fn.defaults):], fn.defaults): sc.setdefault(k, d)
            for k, d in fn.kwdefaults.items(): sc.setdefault(k, d)
            for k in names + [x.arg for x in a.kwonlyargs]:
                if k not in sc: raise Raise("TypeError", "%r: argument %s is missing" % (fn, k))
            g = Frame(fn.glob, list(fn.closure) + [sc], fn.cls, fn.mod); g.first = names[0] if names else None
            self.visited.add((fn.mod, fn.cls.name if fn.cls else "", repr(fn)))
            if isinstance(n, ast.Lambda): return self.ev(n.body, g)
            try:
                self.block(n.body, g); r = None
            except Ret as x: r = x.v
            return PIter(PList(g.yielded)) if fn.gen else r
        if callable(fn): return fn(*args, **kw)
        raise Raise("TypeError", "%r is not callable" % (fn,))

    # objects
    def getattr(self, o, n):
        if isinstance(o, Obj):
            if n in o.attrs: return o.attrs[n]
            return self.bind(o.cls.find(n), o, n, o.cls)
        if isinstance(o, Super):
            c = o.obj.cls if isinstance(o.obj, Obj) else o.obj
            v = c.find(n, o.cls)
            if v is None and n == "__init__": return lambda *a, **k: None
            return self.bind(v, o.obj, n, c)
        if isinstance(o, Cls):
            if n == "__name__": return o.name
            v = o.find(n)
            if v is None: raise Raise("AttributeError", n)
            return v
        if isinstance(o, Opaque):
            return Opaque("%s.%s" % (o.what, n))
        if isinstance(o, Host): return o.pattr(n)
        if isinstance(o, PList): return self.lmethod(o, n)
        if isinstance(o, PIter) and n == "__next__": return lambda: self.b_next(o)
        if isinstance(o, dict): return self.dmethod(o, n)
        if isinstance(o, (str, bytes)):
            if n == "encode": return lambda *a: o
            if hasattr(o, n): return lambda *a, **k: Opaque("text") if any(self.has_abs(x) for x in a) else self.host(lambda: getattr(o, n)(*[x.items if isinstance(x, PList) else x for x in a], **k))
        if isinstance(o, set) and hasattr(o, n): return getattr(o, n)
        if isinstance(o, tuple) and n in ("index", "count"): return getattr(o, n)
        if isinstance(o, type(operator)) and hasattr(o, n): return getattr(o, n)
        if o is None: raise Raise("AttributeError", "None has no attribute %s" % n)
        raise Raise("AttributeError", "%r has no attribute %s" % (o, n))
    def bind(self, v, o, n, cls):
        if v is None:
            if n == "__class__": return cls
            if n == "__dict__" and isinstance(o, Obj): return o.attrs
            raise Raise("AttributeError", "%s has no attribute %s" % (cls.name, n))
        if isinstance(v, Func):
            if v.static == "staticmethod": return v
            if v.static == "classmethod": return Bound(v, cls)
            if v.static == "property": return self.call(v, [o])
            return Bound(v, o)
        return v
    def setattr(self, o, n, v):
        if isinstance(o, Obj): o.attrs[n] = v
        elif isinstance(o, Cls): o.ns[n] = v
        elif isinstance(o, Host): setattr(o, n, v)
        elif isinstance(o, Opaque): pass
        else: raise Raise("AttributeError", n)
    def getitem(self, o, i):
        if isinstance(o, PList):
            if isinstance(i, slice): return PList(o.items[o.slice(i)])
            return o.items[o.at(i)]
        if isinstance(o, Obj): return self.call(self.getattr(o, "__getitem__"), [i])
        if isinstance(o, Host): return o.pattr("item")(i)
        if isinstance(o, Opaque): return Opaque(o.what + "[]")
        if isinstance(o, (tuple, str, dict, range)):
            if isinstance(i, (Lin, Opaque)) and not isinstance(o, dict): raise AnalysisBroken("index %r" % (i,))
            return self.host(lambda: o[i])
        raise Raise("TypeError", "%r is not subscriptable" % (o,))
    def setitem(self, o, i, v):
        if isinstance(o, PList):
            o.touch()
            if isinstance(i, slice): o.items[o.slice(i)] = self.listed(v)
            else: o.items[o.at(i)] = v
        elif isinstance(o, dict): o[i] = v
        elif isinstance(o, Obj): self.call(self.getattr(o, "__setitem__"), [i, v])
        elif not isinstance(o, Opaque): raise Raise("TypeError", "%r does not support assignment" % (o,))
    def truth(self, v):
        if isinstance(v, PList): return len(v.items) > 0
        if isinstance(v, Obj):
            for n in ("__bool__", "__len__"):
                m = v.cls.find(n)
                if m is not None: return self.truth(self.call(m, [v]))
            return True
        if isinstance(v, (Host, Func, Bound, Cls, PIter)): return True
        return bool(v)
    def iter(self, v):
        if isinstance(v, PIter): return v
        if isinstance(v, PList): return PIter(v)
        if isinstance(v, Obj):
            m = v.cls.find("__iter__")
            if m is not None: return self.iter(self.call(m, [v]))
            if v.cls.find("__next__"): raise AnalysisBroken("iterator class")
            g = v.cls.find("__getitem__"); out = []
            if g is None: raise Raise("TypeError", "not iterable")
            try:
                while len(out) < 10000: out.append(self.call(g, [v, len(out)]))
            except Raise as e:
                if e.kind not in ("IndexError", "StopIteration"): raise
            return PIter(PList(out))
        if isinstance(v, (tuple, dict, set, range, str)): return PIter(iter(v))
        if isinstance(v, Opaque): raise AnalysisBroken("iteration over %r" % v)
        if v is None or isinstance(v, (int, Tok, Lin)): raise Raise("TypeError", "%r is not iterable" % (v,))
        raise AnalysisBroken("iteration over %r" % (v,))
    def listed(self, v):
        it = self.iter(v); out = []
        while True:
            try: out.append(it.nxt())
            except StopIteration: return out
    def lmethod(self, o, n):
        def mut(fn):
            def g(*a, **k): o.touch(); return fn(*a, **k)
            return g
        def pop(i=-1):
            if not o.items: raise Raise("IndexError", "pop from an empty list")
            return o.items.pop(o.at(i))
        def popleft():
            if not o.items: raise Raise("IndexError", "pop from an empty deque")
            return o.items.pop(0)
        def remove(x):
            for i, y in enumerate(o.items):
                if y is x: del o.items[i]; return
            raise Raise("ValueError", "remove")
        def insert(i, v): o.items.insert(o.bound(i, 0), v)
        def extend(v): o.items += self.listed(v)
        def extendleft(v): o.items[:0] = self.listed(v)[::-1]
        t = {"append": mut(lambda v: o.items.append(v)), "extend": mut(extend), "pop": mut(pop), "popleft": mut(popleft), "clear": mut(lambda: o.items.clear()), "insert": mut(insert),
             "appendleft": mut(lambda v: o.items.insert(0, v)), "extendleft": mut(extendleft), "reverse": mut(lambda: o.items.reverse()), "copy": lambda: PList(o.items, o.kind), "remove": mut(remove),
             "count": lambda x: sum(1 for y in o.items if y is x), "__len__": lambda: o.len(), "__iter__": lambda: PIter(o), "__getitem__": lambda i: self.getitem(o, i), "index": lambda x: [i for i, y in enumerate(o.items) if y is x][0]}
        if n not in t:
            import collections
            if hasattr(list, n) or hasattr(collections.deque, n): raise AnalysisBroken("list method %s is not modelled" % n)
            raise Raise("AttributeError", "list has no attribute %s" % n)
        return t[n]
    def dmethod(self, o, n):
        t = {"items": lambda: PList([(k, v) for k, v in o.items()]), "keys": lambda: PList(list(o)), "values": lambda: PList(list(o.values())), "get": lambda k, d=None: o.get(k, d),
             "setdefault": lambda k, d=None: o.setdefault(k, d), "clear": o.clear, "copy": o.copy}
        if n == "pop":
            def pop(k, *d):
                if k not in o and not d: raise Raise("KeyError", k)
                return o.pop(k, *d)
            return pop
        if n == "update": return lambda *a, **k: [o.update(x) for x in a] and None or o.update(k)
        if n not in t:
            if hasattr(dict, n): raise AnalysisBroken("dict method %s is not modelled" % n)
            raise Raise("AttributeError", n)
        return t[n]

    # builtins
    def b_len(self, v):
        if isinstance(v, PList): return v.len()
        if isinstance(v, Obj): return self.call(self.getattr(v, "__len__"), [])
        if isinstance(v, (Opaque, Host, Lin)): raise AnalysisBroken("length of %r" % (v,))
        return self.host(lambda: len(v))
    def b_range(self, *a):
        if len(a) == 1: a = (0, a[0])
        st = a[2] if len(a) > 2 else 1
        n = a[1] - a[0] if st > 0 else a[0] - a[1]
        if isinstance(n, (Lin, Opaque)):
            if isinstance(n, Lin) and n.sign() < 0: return PList()
            raise Wrong("goes through values of other rules (from %s to %s)" % (a[0], a[1]))
        k = max(0, -(-n // abs(st)))
        return PList([a[0] + i * st for i in range(k)])
    def b_iter(self, v): return self.iter(v)
    def b_next(self, it, *d):
        try: return self.iter(it).nxt()
        except StopIteration:
            if d: return d[0]
            raise Raise("StopIteration", "")
    def b_list(self, v=()): return PList(self.listed(v))
    def b_tuple(self, v=()): return tuple(self.listed(v))
    def b_dict(self, *a, **k): d = {x[0]: x[1] for x in self.listed(a[0])} if a and not isinstance(a[0], dict) else dict(*a); d.update(k); return d
    def b_set(self, v=()): return set(self.listed(v))
    def b_enumerate(self, v, start=0): return PIter(PList([(start + i, x) for i, x in enumerate(self.listed(v))]))
    def b_zip(self, *vs): return PIter(PList([tuple(t) for t in zip(*[self.listed(v) for v in vs])]))
    def b_map(self, fn, *vs): return PIter(PList([self.call(fn, list(t)) for t in zip(*[self.listed(v) for v in vs])]))
    def b_filter(self, fn, v): return PIter(PList([x for x in self.listed(v) if self.truth(x if fn is None else self.call(fn, [x]))]))
    def b_reversed(self, v): return PIter(PList(self.listed(v)[::-1]))
    def b_sorted(self, v, key=None, reverse=False):
        xs = self.listed(v)
        return PList(self.host(lambda: sorted(xs, key=(lambda x: self.call(key, [x])) if key else None, reverse=reverse)))
    def b_sum(self, v, s=0):
        for x in self.listed(v): s = self.binop(ast.Add, s, x)
        return s
    def b_any(self, v): return any(self.truth(x) for x in self.listed(v))
    def b_all(self, v): return all(self.truth(x) for x in self.listed(v))
    def b_min(self, *a, **k): return min(self.listed(a[0]) if len(a) == 1 else a)
    def b_max(self, *a, **k): return max(self.listed(a[0]) if len(a) == 1 else a)
    def b_abs(self, v): return abs(v)
    def b_print(self, *a, **k): return None
    def b_id(self, v): return id(v)
    def b_str(self, *a): return str(a[0]) if a and not self.has_abs(a[0]) else Opaque("text")
    def b_repr(self, *a): return Opaque("text")
    def b_int(self, v=0): return v if isinstance(v, (Lin, Opaque)) else self.host(lambda: int(v))
    def b_bool(self, v=False): return self.truth(v)
    def b_callable(self, v): return isinstance(v, (Func, Bound, Cls)) or callable(v)
    def b_hasattr(self, o, n):
        try: self.getattr(o, n); return True
        except Raise: return False
    def b_getattr(self, o, n, *d):
        try: return self.getattr(o, n)
        except Raise:
            if d: return d[0]
            raise
    def b_setattr(self, o, n, v): self.setattr(o, n, v)
    def b_isinstance(self, o, c):
        cs = c if isinstance(c, tuple) else (c,)
        r = False
        for k in cs:
            if isinstance(k, Cls): r |= isinstance(o, Obj) and k in o.cls.mro()
            elif k == self.b_int: r |= isinstance(o, (int, Lin))
            elif k == self.b_list: r |= isinstance(o, PList)
            elif k == self.b_tuple: r |= isinstance(o, tuple)
            elif k == self.b_str: r |= isinstance(o, str)
            elif k == slice or k == self.b_slice: r |= isinstance(o, slice)
            else: raise AnalysisBroken("isinstance of %r" % (k,))
        return r
    def b_slice(self, *a): return slice(*a)
    def b_type(self, o): return o.cls if isinstance(o, Obj) else Opaque("type")


class Frame:
    def __init__(self, glob, scopes, cls, mod):
        self.glob = glob; self.scopes = scopes; self.cls = cls; self.mod = mod; self.classns = None; self.globals_ = set(); self.nonlocals = set(); self.handling = []; self.yielded = []; self.first = None
    def is_module(self): return self.scopes == [self.glob] or self.scopes[-1] is self.glob
    def child(self):
        g = Frame(self.glob, self.scopes + [{}], self.cls, self.mod); g.handling = self.handling; g.first = self.first; g.yielded = self.yielded; return g
    def self_(self):
        for s in reversed(self.scopes):
            if self.first in s: return s[self.first]
    def set(self, n, v):
        if n in self.globals_: self.glob[n] = v
        elif n in self.nonlocals:
            for s in reversed(self.scopes[:-1]):
                if n in s: s[n] = v; return
        else: self.scopes[-1][n] = v
    def delete(self, n):
        if n not in self.scopes[-1]: raise Raise("NameError", n)
        del self.scopes[-1][n]
