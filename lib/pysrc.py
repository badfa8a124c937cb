"""A reader of Python sources: module-level evaluation of constant-like code (ctypes declarations) and call sites, from the syntax tree only."""
import ast, os
from ir import AnalysisBroken


class Obj:
    def __init__(self, **kw): self.__dict__.update(kw)
    def __repr__(self): return "<%s>" % ", ".join("%s" % (v,) for v in self.__dict__.values())


class Unknown:
    def __repr__(self): return "?"
UNKNOWN = Unknown()
SIZES = {"c_bool": ("bool", 1), "c_byte": ("int", 1), "c_ubyte": ("int", 1), "c_int8": ("int", 1), "c_uint8": ("int", 1), "c_char": ("int", 1),
         "c_short": ("int", 2), "c_ushort": ("int", 2), "c_int16": ("int", 2), "c_uint16": ("int", 2), "c_int": ("int", 4), "c_uint": ("int", 4),
         "c_int32": ("int", 4), "c_uint32": ("int", 4), "c_long": ("int", 8), "c_ulong": ("int", 8), "c_longlong": ("int", 8), "c_ulonglong": ("int", 8),
         "c_int64": ("int", 8), "c_uint64": ("int", 8), "c_size_t": ("int", 8), "c_ssize_t": ("int", 8), "c_wchar": ("int", 4),
         "c_float": ("float", 4), "c_double": ("float", 8), "c_void_p": ("ptr",), "c_char_p": ("cstr",), "c_wchar_p": ("wstr",), "py_object": ("ptr",)}
UNSIGNED = {"c_ubyte", "c_uint8", "c_ushort", "c_uint16", "c_uint", "c_uint32", "c_ulong", "c_ulonglong", "c_uint64", "c_size_t"}


class LibFn:
    def __init__(self, name): self.name = name; self.argtypes = None; self.restype = ("int", 4); self.line = None; self.lines = {}
    def __repr__(self): return "native " + self.name


class PyFunc:
    def __init__(self, node, env, mod): self.node = node; self.env = env; self.mod = mod; self.name = node.name


class PyClass:
    def __init__(self, name, bases, mod, node): self.name = name; self.bases = bases; self.mod = mod; self.node = node; self.ns = {}
    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, PyClass):
                for c in b.mro():
                    if c not in out: out.append(c)
        return out
    def get(self, n):
        for c in self.mro():
            if n in c.ns: return c.ns[n]
        return None
    def record(self):
        f = self.get("_fields_")
        return f if isinstance(f, (list, tuple)) else None


class Package:
    """all modules of one package directory"""
    def __init__(self, d):
        self.dir = d; self.mods = {}; self.fns = {}; self.lib = Obj(k="lib"); self.depth = 0

    def load(self, name):
        if name in self.mods: return self.mods[name]
        p = os.path.join(self.dir, name + ".py")
        if not os.path.exists(p): return None
        src = open(p, encoding="utf-8-sig").read()
        m = Obj(k="module", name=name, path=p, env={}, tree=ast.parse(src))
        self.mods[name] = m
        self.block(m.tree.body, m.env, m)
        return m

    # ---- statements
    def block(self, body, env, mod):
        for s in body:
            r = self.stmt(s, env, mod)
            if r is not None: return r
        return None

    def stmt(self, s, env, mod):
        if isinstance(s, ast.Import):
            for a in s.names: env[a.asname or a.name.split(".")[0]] = Obj(k="pymod", name=a.name if a.asname else a.name.split(".")[0])
        elif isinstance(s, ast.ImportFrom):
            m = self.load(s.module or "") if s.level or os.path.exists(os.path.join(self.dir, (s.module or "") + ".py")) else None
            for a in s.names:
                if m is not None:
                    if a.name == "*": env.update({k: v for k, v in m.env.items() if not k.startswith("_")})
                    else: env[a.asname or a.name] = m.env.get(a.name, UNKNOWN)
                elif s.module == "ctypes":
                    if a.name == "*":
                        for k in list(SIZES) + ["CDLL", "CFUNCTYPE", "POINTER", "Structure"]: env[k] = Obj(k="ct", name=k)
                    else: env[a.asname or a.name] = Obj(k="ct", name=a.name)
                else: env[a.asname or a.name] = UNKNOWN
        elif isinstance(s, ast.FunctionDef): env[s.name] = PyFunc(s, env, mod)
        elif isinstance(s, ast.ClassDef):
            c = PyClass(s.name, [self.ev(b, env, mod) for b in s.bases], mod, s)
            env[s.name] = c
            sub = Scope(env); self.block(s.body, sub, mod); c.ns = sub.own
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value, env, mod)
            for t in s.targets: self.assign(t, v, env, mod)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None: self.assign(s.target, self.ev(s.value, env, mod), env, mod)
        elif isinstance(s, ast.AugAssign): self.assign(s.target, UNKNOWN, env, mod)
        elif isinstance(s, ast.Expr): self.ev(s.value, env, mod)
        elif isinstance(s, ast.For):
            it = self.ev(s.iter, env, mod)
            if isinstance(it, (list, tuple)):
                for v in it:
                    self.assign(s.target, v, env, mod)
                    r = self.block(s.body, env, mod)
                    if r is not None: return r
            else: self.block(s.body, env, mod)
        elif isinstance(s, (ast.If, ast.While)):
            self.block(s.body, env, mod); self.block(s.orelse, env, mod)
        elif isinstance(s, ast.Try):
            self.block(s.body, env, mod)
            for h in s.handlers: self.block(h.body, env, mod)
            self.block(s.finalbody, env, mod)
        elif isinstance(s, ast.With): return self.block(s.body, env, mod)
        elif isinstance(s, ast.Return): return ("ret", self.ev(s.value, env, mod) if s.value is not None else None)
        return None

    def assign(self, t, v, env, mod):
        if isinstance(t, ast.Name): env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = v if isinstance(v, (list, tuple)) and len(v) == len(t.elts) else [UNKNOWN] * len(t.elts)
            for a, b in zip(t.elts, vs): self.assign(a, b, env, mod)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env, mod)
            if isinstance(o, LibFn): self.declare(o, t.attr, v, t.lineno, mod)

    def declare(self, fn, attr, v, line, mod):
        if attr == "argtypes":
            if v is None: fn.argtypes = None; return
            if not isinstance(v, (list, tuple)): raise AnalysisBroken("%s:%d: argtypes of %s is not understood" % (mod.path, line, fn.name))
            fn.argtypes = [self.ctype(x, mod, line) for x in v]
        elif attr == "restype": fn.restype = ("none",) if v is None else self.ctype(v, mod, line)
        else: return
        fn.lines[attr] = "%s:%d" % (mod.path, line)

    # ---- types
    def ctype(self, v, mod, line):
        if isinstance(v, Obj) and v.k == "ct" and v.name in SIZES:
            d = SIZES[v.name]
            return d
        if isinstance(v, tuple) and v and v[0] in ("ptrto", "func", "int", "ptr", "bool"): return v
        if isinstance(v, PyClass) and v.record() is not None: return ("rec", v)
        if v is None: return ("none",)
        raise AnalysisBroken("%s:%d: %r is not a type this analysis knows" % (mod.path, line, v))

    # ---- expressions
    def ev(self, e, env, mod):
        if isinstance(e, ast.Constant): return e.value
        if isinstance(e, ast.Name): return env[e.id] if e.id in env else UNKNOWN
        if isinstance(e, (ast.Tuple, ast.List)):
            out = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    v = self.ev(x.value, env, mod)
                    if not isinstance(v, (list, tuple)): return UNKNOWN
                    out += list(v)
                else: out.append(self.ev(x, env, mod))
            return out if isinstance(e, ast.List) else tuple(out) if not (out and isinstance(out[0], str) and out[0] in ("ptrto", "func")) else list(out)
        if isinstance(e, ast.Dict): return Obj(k="dict", items=[(self.ev(a, env, mod), self.ev(b, env, mod)) for a, b in zip(e.keys, e.values) if a is not None])
        if isinstance(e, ast.Attribute):
            o = self.ev(e.value, env, mod)
            return self.attr(o, e.attr)
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Mult)):
            a, b = self.ev(e.left, env, mod), self.ev(e.right, env, mod)
            if isinstance(e.op, ast.Add) and isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)): return list(a) + list(b)
            if isinstance(e.op, ast.Mult) and isinstance(a, (list, tuple)) and isinstance(b, int): return list(a) * b
            if isinstance(a, (int, str)) and type(a) == type(b) and isinstance(e.op, ast.Add): return a + b
            return UNKNOWN
        if isinstance(e, ast.JoinedStr):
            out = ""
            for p in e.values:
                v = self.ev(p.value if isinstance(p, ast.FormattedValue) else p, env, mod)
                if not isinstance(v, (str, int)): return UNKNOWN
                out += str(v)
            return out
        if isinstance(e, ast.Call): return self.call(e, env, mod)
        if isinstance(e, ast.ListComp) and len(e.generators) == 1:
            it = self.ev(e.generators[0].iter, env, mod)
            if isinstance(it, (list, tuple)):
                sub = Scope(env); out = []
                for v in it:
                    self.assign(e.generators[0].target, v, sub, mod); out.append(self.ev(e.elt, sub, mod))
                return out
        return UNKNOWN

    def attr(self, o, a):
        if isinstance(o, Obj):
            if o.k == "pymod" and o.name == "ctypes":
                return Obj(k="ct", name=a)
            if o.k == "ct" and o.name in ("cdll", "windll"): return Obj(k="pymod", name="ctypes.cdll." + a)
            if o.k == "pymod": return Obj(k="pymod", name=o.name + "." + a)
            if o.k == "lib": return self.fns.setdefault(a, LibFn(a))
            if o.k == "dict" and a == "items": return Obj(k="items", d=o)
            if o.k == "module": return o.env.get(a, UNKNOWN)
        if isinstance(o, LibFn): return o.argtypes if a == "argtypes" else o.restype if a == "restype" else UNKNOWN
        if isinstance(o, PyClass):
            v = o.get(a); return UNKNOWN if v is None else v
        return UNKNOWN

    def call(self, e, env, mod):
        f = self.ev(e.func, env, mod)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env, mod)
                if not isinstance(v, (list, tuple)): return UNKNOWN
                args += list(v)
            else: args.append(self.ev(a, env, mod))
        if isinstance(f, Obj):
            if f.k == "ct":
                if f.name in ("CDLL", "PyDLL", "WinDLL"): return self.lib
                if f.name == "POINTER" and len(args) == 1: return ("ptrto", self.ctype(args[0], mod, e.lineno))
                if f.name in ("CFUNCTYPE", "PYFUNCTYPE") and args: return ("func", self.ctype(args[0], mod, e.lineno), tuple(self.ctype(x, mod, e.lineno) for x in args[1:]))
                return UNKNOWN
            if f.k == "items": return [tuple(i) for i in f.d.items]
            if f.k == "pymod" and f.name.startswith("ctypes.cdll"): return self.lib
        if isinstance(f, tuple) and f and f[0] == "func": return Obj(k="callback", type=f, args=e.args, line=e.lineno)
        if isinstance(f, PyFunc) and self.depth < 8:
            sub = Scope(f.env)
            ps = f.node.args.args; ds = f.node.args.defaults
            for i, p in enumerate(ps):
                if i < len(args): sub[p.arg] = args[i]
                elif i >= len(ps) - len(ds): sub[p.arg] = self.ev(ds[i - len(ps) + len(ds)], f.env, mod)
                else: sub[p.arg] = UNKNOWN
            if f.node.args.vararg: sub[f.node.args.vararg.arg] = list(args[len(ps):])
            for k in e.keywords:
                if k.arg: sub[k.arg] = self.ev(k.value, env, mod)
            self.depth += 1
            try: r = self.block(f.node.body, sub, f.mod)
            finally: self.depth -= 1
            return r[1] if r else None
        if isinstance(e.func, ast.Name) and e.func.id not in env:
            n = e.func.id
            if n == "getattr" and len(args) >= 2 and isinstance(args[1], str): return self.attr(args[0], args[1])
            if n == "setattr" and len(args) == 3 and isinstance(args[0], LibFn) and isinstance(args[1], str): self.declare(args[0], args[1], args[2], e.lineno, mod); return None
            if n in ("list", "tuple") and len(args) == 1 and isinstance(args[0], (list, tuple)): return list(args[0])
            if n == "zip" and all(isinstance(a, (list, tuple)) for a in args): return [tuple(x) for x in zip(*args)]
        return UNKNOWN


class Scope(dict):
    """names of an inner scope over those of the outer one"""
    def __init__(self, outer): self.outer = outer; self.own = {}
    def __contains__(self, k): return k in self.own or k in self.outer
    def __getitem__(self, k): return self.own[k] if k in self.own else self.outer[k]
    def __setitem__(self, k, v): self.own[k] = v
    def get(self, k, d=None): return self[k] if k in self else d
    def items(self): return list(self.own.items())
    def update(self, d): self.own.update(d)


def functions(pkg):
    """(module, class or None, function node, environment) of every function of the package"""
    for m in pkg.mods.values():
        for n in m.tree.body:
            if isinstance(n, ast.FunctionDef): yield m, None, n, m.env
            elif isinstance(n, ast.ClassDef) and isinstance(m.env.get(n.name), PyClass):
                for k in n.body:
                    if isinstance(k, ast.FunctionDef): yield m, m.env[n.name], k, m.env
