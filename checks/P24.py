"""P24: Python and the native library agree on every call, callback and record between them."""
import sys, os, re, ast, subprocess, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import ir, report
from ir import AnalysisBroken
from pysrc import *

PKG = ir.REPO + "/src/python/centaurus"
STUB = ir.VERIF + "/tu/stub"
WITNESS = r'''
#include <type_traits>
#include <cstddef>
#include <cwchar>
namespace verif_w {
template<int S> struct D_int {}; struct D_bool {}; template<int S> struct D_float {}; struct D_ptr {}; struct D_cstr {}; struct D_wstr {}; struct D_rec {}; struct D_none {};
template<class D> struct D_to {}; template<class R, class... A> struct D_func {};
template<class T> using bare = typename std::remove_cv<T>::type;
template<class T> using pointee = bare<typename std::remove_pointer<bare<T>>::type>;
template<class T> struct sig; 
template<class R, class... A> struct sig<R(A...)> { static const int n = sizeof...(A); using ret = R; };
template<class F> struct fn { using type = typename std::remove_pointer<bare<F>>::type; };
template<int I, class T> struct argn;
template<class R, class A0, class... A> struct argn<0, R(A0, A...)> { using type = A0; };
template<int I, class R, class A0, class... A> struct argn<I, R(A0, A...)> { using type = typename argn<I - 1, R(A...)>::type; };
template<class F, int I> using arg = typename argn<I, typename fn<F>::type>::type;
template<class F> using ret = typename sig<typename fn<F>::type>::ret;
template<class C, class D> struct ok { static const bool value = false; };
template<class C, int S> struct ok<C, D_int<S>> { static const bool value = (std::is_integral<C>::value || std::is_enum<C>::value) && !std::is_same<bare<C>, bool>::value && sizeof(C) == S; };
template<class C> struct ok<C, D_bool> { static const bool value = std::is_same<bare<C>, bool>::value; };
template<class C, int S> struct ok<C, D_float<S>> { static const bool value = std::is_floating_point<C>::value && sizeof(C) == S; };
template<class C> struct ok<C, D_ptr> { static const bool value = std::is_pointer<C>::value; };
template<class C> struct ok<C, D_cstr> { static const bool value = std::is_pointer<C>::value && (std::is_same<pointee<C>, char>::value || std::is_same<pointee<C>, unsigned char>::value || std::is_void<pointee<C>>::value); };
template<class C> struct ok<C, D_wstr> { static const bool value = std::is_pointer<C>::value && std::is_same<pointee<C>, wchar_t>::value; };
template<class C> struct ok<C, D_rec> { static const bool value = std::is_class<C>::value; };
template<class C> struct ok<C, D_none> { static const bool value = std::is_void<C>::value; };
template<class C, class D> struct ok<C, D_to<D>> { static const bool value = std::is_pointer<C>::value && (std::is_void<pointee<C>>::value || ok<pointee<C>, D>::value); };
template<class F, int I, class... A> struct args_ok { static const bool value = true; };
template<class R, class C0, class... C, int I, class D0, class... D> struct args_ok<R(C0, C...), I, D0, D...> { static const bool value = ok<C0, D0>::value && args_ok<R(C...), I + 1, D...>::value; };
template<class R, int I, class D0, class... D> struct args_ok<R(), I, D0, D...> { static const bool value = false; };
template<class F> struct is_fn { static const bool value = std::is_pointer<F>::value && std::is_function<typename std::remove_pointer<F>::type>::value; };
template<class C, class DR, class... D> struct ok<C, D_func<DR, D...>> { static const bool value = is_fn<C>::value && args_ok<typename std::remove_pointer<bare<C>>::type, 0, D...>::value && ok<ret<C>, DR>::value; };
template<int N, class T> struct Show { static_assert(N < 0, "SHOW"); };
}
using namespace verif_w;
'''


def dname(d):
    k = d[0]
    if k == "int": return "D_int<%d>" % d[1]
    if k == "float": return "D_float<%d>" % d[1]
    if k in ("bool", "ptr", "cstr", "wstr", "rec", "none"): return "D_" + k
    if k == "ptrto": return "D_to<%s>" % dname(d[1])
    if k == "func": return "D_func<%s>" % ", ".join(dname(x) for x in (d[1],) + d[2])
    raise AnalysisBroken("type %r" % (d,))


def pyname(d):
    k = d[0]
    return {"int": lambda: "%d-byte integer" % d[1], "float": lambda: "%d-byte float" % d[1], "ptr": lambda: "address", "cstr": lambda: "char string", "wstr": lambda: "wide string",
            "rec": lambda: "record " + d[1].name, "none": lambda: "nothing", "bool": lambda: "bool", "ptrto": lambda: "pointer to " + pyname(d[1]),
            "func": lambda: "callback(%s) -> %s" % (", ".join(pyname(x) for x in d[2]), pyname(d[1]))}[k]()


def clang(text):
    td = tempfile.mkdtemp(prefix="ffi_")
    try:
        p = os.path.join(td, "w.cpp")
        open(p, "w").write('#include "../pydll/PyCentaurus.cpp"\n' + text)
        r = subprocess.run(["clang++-18", "-fsyntax-only", "-ferror-limit=0"] + ir.FLAGS[:4] + ["-w", "-I" + STUB, "-I" + ir.REPO + "/src/core", p], capture_output=True, text=True)
        return r.stderr
    finally: shutil.rmtree(td, ignore_errors=True)


def errors(err, tag):
    out = []
    for l in err.splitlines():
        if " error: " in l or l.startswith("fatal error") or "fatal error:" in l:
            m = re.search(tag + r"\|(\d+)\|", l)
            if m: out.append(int(m.group(1)))
            elif "SHOW" not in l: raise AnalysisBroken("the interface does not type-check: " + l[:300])
    return out


class FFI:
    def __init__(self, C):
        self.C = C
        self.mod = ir.compile_tu(ir.VERIF + "/tu/pyffi.cpp", inc=[STUB])
        self.pkg = Package(PKG)
        for n in sorted(os.listdir(PKG)):
            if n.endswith(".py"): self.pkg.load(n[:-3])
        self.exports = {f.name: f for f in self.mod.functions.values() if f.defined and "(" not in f.dem and f.file.endswith("PyCentaurus.cpp")}
        self.calls()

    # ---- call sites in Python
    def calls(self):
        self.sites = []; self.cbs = []
        for m, cls, node, env in functions(self.pkg):
            sc = Scope(env)
            for a in node.args.args + node.args.kwonlyargs: sc[a.arg] = UNKNOWN
            if cls is not None and node.args.args: sc[node.args.args[0].arg] = cls
            loc = {}
            for s in ast.walk(node):
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                    v = self.pkg.ev(s.value, sc, m); sc[s.targets[0].id] = v; loc[s.targets[0].id] = s.value
            used = {id(s.value) for s in ast.walk(node) if isinstance(s, ast.Expr)}
            for s in ast.walk(node):
                if not isinstance(s, ast.Call): continue
                f = self.pkg.ev(s.func, sc, m)
                if isinstance(f, LibFn): self.sites.append(Obj(fn=f, node=s, used=id(s) not in used, mod=m, cls=cls, func=node, env=sc, loc=loc))
                if isinstance(f, tuple) and f and f[0] == "func": self.cbs.append(Obj(type=f, node=s, mod=m, cls=cls, func=node, env=sc, loc=loc))

    def where(self, s, line=None): return "%s:%d" % (s.mod.path, line or s.node.lineno)

    def arg(self, fn, i): return "arg<decltype(&Centaurus::%s), %d>" % (fn, i)

    def check(self):
        C = self.C; pk = self.pkg
        w = []; obls = []
        def need(cond, key, msg, where):
            w.append('static_assert(%s, "W|%d|");' % (cond, len(obls))); obls.append((key, msg, where))
        used = {}
        for s in self.sites: used.setdefault(s.fn.name, []).append(s)
        names = sorted(set(used) | {n for n, f in pk.fns.items() if f.argtypes is not None or "restype" in f.lines})
        if not names: raise AnalysisBroken("no native function is called from Python")
        for n in names:
            f = pk.fns[n]; at = f.lines.get("argtypes") or f.lines.get("restype") or self.where(used[n][0])
            if n not in self.exports:
                C.violation("ffi:missing:" + n, "Python uses the native function %s, which the library does not export" % n, at); continue
            C.obligation("native function %s is exported" % n)
            ex = self.exports[n]; F = "decltype(&Centaurus::%s)" % n
            if f.argtypes is None:
                if n not in used: continue
                wide = [a["name"] for a in ex.args if a["size"] == 8]
                if wide: C.violation("ffi:undeclared:" + n, "%s is called without declared parameter types: Python passes C ints, the library takes 8-byte %s" % (n, ", ".join(wide)), self.where(used[n][0]))
                continue
            if len(f.argtypes) != len(ex.args):
                C.violation("ffi:count:" + n, "%s takes %d parameters, Python declares %d" % (n, len(ex.args), len(f.argtypes)), at)
            for i, d in enumerate(f.argtypes[:len(ex.args)]):
                need("ok<%s, %s>::value" % (self.arg(n, i), dname(d)), "ffi:param:%s:%d" % (n, i), "parameter %d (%s) of %s is not the %s that Python passes" % (i + 1, ex.args[i]["name"], n, pyname(d)), at)
                if d[0] == "func":
                    P = self.arg(n, i)
                    for j, a in enumerate(d[2]):
                        need("args_ok<typename std::remove_pointer<bare<%s>>::type, 0, %s>::value" % (P, ", ".join(dname(x) for x in d[2][:j + 1])), "ffi:callback:%s:%d:%d" % (n, i, j),
                             "argument %d that the library gives the callback %s of %s is not the %s that Python takes" % (j + 1, ex.args[i]["name"], n, pyname(a)), at)
                    need("ok<ret<%s>, %s>::value" % (P, dname(d[1])), "ffi:callback:%s:%d:ret" % (n, i), "what the callback %s of %s gives back is not the %s that Python returns" % (ex.args[i]["name"], n, pyname(d[1])), at)
            if any(s.used for s in used.get(n, [])):
                s = [s for s in used[n] if s.used][0]
                need("ok<ret<%s>, %s>::value" % (F, dname(f.restype)), "ffi:result:" + n, "the result of %s is not the %s that Python takes it for" % (n, pyname(f.restype)), f.lines.get("restype") or self.where(s))
        for s in self.sites:
            f = s.fn
            if f.name not in self.exports or any(isinstance(a, ast.Starred) for a in s.node.args): continue
            ok = len(s.node.args) == len(self.exports[f.name].args)
            C.obligation("call of %s at %s passes every parameter" % (f.name, self.where(s)), ok)
            if not ok: C.violation("ffi:call:%s:%s" % (f.name, s.func.name), "%s is called with %d arguments, the library takes %d" % (f.name, len(s.node.args), len(self.exports[f.name].args)), self.where(s))
        bad = set(errors(clang(WITNESS + "\n".join(w)), "W"))
        for i, (k, m, at) in enumerate(obls):
            C.obligation(m.replace(" is not ", " is "), i not in bad)
            if i in bad:
                # a callback is reported at its first wrong part only
                if k.startswith("ffi:param:") and any(obls[j][0].startswith(k.replace("param", "callback") + ":") for j in bad): continue
                if k.startswith("ffi:callback:") and any(j in bad and obls[j][0].rsplit(":", 1)[0] == k.rsplit(":", 1)[0] and j < i and not k.endswith(":ret") for j in bad): continue
                C.violation(k, m, at)
        self.records(names)
        self.lifetimes()
        self.targets()
        self.bases()

    # ---- records
    def show(self, types):
        err = clang(WITNESS + "\n".join("template struct verif_w::Show<%d, %s>;" % (i, t) for i, t in enumerate(types)))
        out = {}
        for m in re.finditer(r"verif_w::Show<(\d+), ([^']*)>'", err): out[int(m.group(1))] = m.group(2).strip()
        errors(err, "W")
        return [out.get(i) for i in range(len(types))]

    def records(self, names):
        C = self.C; todo = []
        def walk(d, t, at, tag):
            if d[0] == "ptrto": walk(d[1], "pointee<%s>" % t, at, tag)
            elif d[0] == "func":
                for j, a in enumerate(d[2]): walk(a, "arg<%s, %d>" % (t, j), at, tag)
            elif d[0] == "rec": todo.append((d[1], t, at, tag))
        for n in names:
            f = self.pkg.fns[n]
            if n in self.exports and f.argtypes is not None:
                for i, d in enumerate(f.argtypes[:len(self.exports[n].args)]): walk(d, self.arg(n, i), f.lines.get("argtypes", ""), n)
        if not todo: return
        for (rec, _, at, n), cname in zip(todo, self.show([t[1] for t in todo])):
            if cname is None: continue       # reported as a parameter mismatch already
            cname = re.sub(r"^(const |struct |class )+", "", cname)
            ty = self.mod.types.get(cname)
            if ty is None: raise AnalysisBroken("no layout of %s" % cname)
            mem = sorted(ty["members"], key=lambda m: m[1])
            where = "%s:%d" % (rec.mod.path, rec.node.lineno)
            off = 0
            for k, fd in enumerate(rec.record()):
                name, d = fd[0], self.pkg.ctype(fd[1], rec.mod, rec.node.lineno)
                size = d[1] if d[0] in ("int", "float") else 1 if d[0] == "bool" else 8
                off = (off + size - 1) // size * size
                byname = [m for m in mem if m[0] == name or m[0] == "m_" + name]
                m = byname[0] if byname else mem[k] if k < len(mem) else None
                key = "ffi:record:%s:%s" % (rec.name, name)
                if m is None: C.violation(key, "%s has no field for Python's %s.%s" % (cname, rec.name, name), where); off += size; continue
                msz = m[2][2]; mk = "int" if m[2][0] in ("basic", "enum") and not re.search("float|double|bool", str(m[2][1])) else "float" if re.search("float|double", str(m[2][1])) else m[2][0]
                ok = off == m[1]; why = "Python reads %s.%s at byte %d, %s keeps it at byte %d" % (rec.name, name, off, cname, m[1])
                if ok and size != msz:
                    if size < msz and d[0] == "int" and mk == "int" and self.fits(cname, m[1], size): C.obligation("%s.%s always fits the %d bytes Python reads" % (cname, m[0], size))
                    else: ok = False; why = "Python reads %d bytes of %s.%s, %s keeps %d" % (size, rec.name, name, cname, msz)
                if ok and (d[0] in ("int", "float")) != (mk in ("int", "float")) and mk != "ptr": ok = False; why = "Python reads %s.%s as %s" % (rec.name, name, pyname(d))
                C.obligation("field %s of %s is where Python reads it" % (m[0], cname), ok)
                if not ok: C.violation(key, why, where)
                off += size

    def fits(self, cname, off, size):
        """does every constructor store only widened values of at most size bytes there?"""
        ctors = [f for f in self.mod.functions.values() if f.defined and f.cls == cname and re.search(r"::%s\(" % re.escape(cname.split("::")[-1]), f.dem)]
        n = 0
        for f in ctors:
            ds = {}; at = {}
            for b in f.blocks:
                for i in b:
                    if "id" in i: ds[i["id"]] = i
                    if i["op"] == "getelementptr" and i["base"][0] == "r" and i["base"][1] == f.args[0]["id"] and not i["var"]: at[i["id"]] = i["off"]
            at[f.args[0]["id"]] = 0
            for b in f.blocks:
                for i in b:
                    if i["op"] != "store" or i["ops"][1][0] != "r" or at.get(i["ops"][1][1]) != off: continue
                    v = i["ops"][0]
                    if v[0] == "r" and v[1] in ds and ds[v[1]]["op"] in ("sext", "zext"):
                        src = ds[v[1]]["ops"][0]; n += 1
                        if ds[v[1]]["sbits"] <= 8 * size: continue
                    return False
        return n > 0

    # ---- callbacks the library keeps
    def retained(self, f, argno, seen):
        if (f.name, argno) in seen: return None
        seen.add((f.name, argno))
        if not f.defined: return "%s is outside the library" % f.dem
        regs = {f.args[argno]["id"]}; local = set(); ch = True
        while ch:
            ch = False
            for b in f.blocks:
                for i in b:
                    if i["op"] == "alloca": local.add(i["id"])
                    o = i.get("ops", []); isr = lambda x: x[0] == "r" and x[1] in regs
                    src = list(o) + [v for v, _ in i.get("in", [])]
                    if i["op"] in ("phi", "select", "freeze", "bitcast") and i["id"] not in regs and any(isr(x) for x in src): regs.add(i["id"]); ch = True
                    if i["op"] == "load" and o[0][0] == "r" and ("slot", o[0][1]) in regs and i["id"] not in regs: regs.add(i["id"]); ch = True
                    if i["op"] == "store" and isr(o[0]) and o[1][0] == "r" and o[1][1] in local and ("slot", o[1][1]) not in regs: regs.add(("slot", o[1][1])); ch = True
        for b in f.blocks:
            for i in b:
                if i["op"] == "store" and i["ops"][0][0] == "r" and i["ops"][0][1] in regs and not (i["ops"][1][0] == "r" and i["ops"][1][1] in local): return "%s stores it" % f.dem
                if i["op"] in ("call", "invoke"):
                    for k, a in enumerate(i["args"]):
                        if not (a[0] == "r" and a[1] in regs): continue
                        cal = i["callee"]
                        if cal[0] == "g":
                            g = self.mod.functions.get(cal[1])
                            if g is None: return "%s takes it" % cal[1]
                            if g.name.startswith("llvm."): continue
                            r = self.retained(g, k, seen)
                            if r: return r
                        else:
                            for g in self.mod.functions.values():
                                if g.defined and len(g.args) == len(i["args"]) and self.fnptr in g.dem and g.name not in self.exports:
                                    r = self.retained(g, k, seen)
                                    if r: return r
        return None

    def lifetimes(self):
        C = self.C
        types = {}
        for s in self.sites:
            at = s.fn.argtypes or []
            ex = self.exports.get(s.fn.name)
            if ex is None: continue
            for i, d in enumerate(at):
                if d[0] != "func" or i >= len(s.node.args): continue
                if (s.fn.name, i) not in types:
                    self.fnptr = self.fnptr_text(s.fn.name, i)
                    types[(s.fn.name, i)] = self.retained(ex, i, set())
                why = types[(s.fn.name, i)]
                a = s.node.args[i]
                if why is None: C.obligation("the library does not keep parameter %d of %s" % (i + 1, s.fn.name)); continue
                ok = self.kept(s, a)
                C.obligation("the callback given to %s at %s outlives the call (%s)" % (s.fn.name, self.where(s), why), ok)
                if not ok: C.violation("ffi:lifetime:%s:%d" % (s.fn.name, i), "the library keeps the callback given to %s (%s), but Python holds it only in a temporary, which is collected" % (s.fn.name, why), self.where(s))

    def fnptr_text(self, fn, i):
        t = self.show([self.arg(fn, i)])[0] or ""
        m = re.match(r"(.*)\(\*\)\((.*)\)$", t)
        if not m: return "(*)("
        # the demangler writes const after the type
        ps = []
        for p in m.group(2).split(","):
            p = p.strip(); mm = re.match(r"const (.*?)( ?\*.*)$", p)
            ps.append("%s const%s" % (mm.group(1), mm.group(2).strip()) if mm else p.replace(" *", "*"))
        return "(*)(" + ", ".join(ps).replace("uint64_t", "unsigned long") + ")"

    def kept(self, s, a):
        if isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name): return True         # an attribute of an object
        if isinstance(a, ast.Name):
            if a.id in s.loc:
                # a local: kept if the same object is also stored in an attribute or container
                for n in ast.walk(s.func):
                    if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id == a.id and any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in n.targets): return True
                    if isinstance(n, ast.Assign) and isinstance(n.value, (ast.Tuple, ast.List)) and any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in n.targets) and any(isinstance(x, ast.Name) and x.id == a.id for x in n.value.elts): return True
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "add", "extend", "insert", "setdefault") and any(isinstance(x, ast.Name) and x.id == a.id for x in ast.walk(n) if x is not n.func): return True
                return False
            return True             # a parameter or a module-level object: the caller's
        if isinstance(a, ast.Subscript): return True
        if isinstance(a, ast.NamedExpr): return False
        return not isinstance(a, (ast.Call, ast.Lambda))

    # ---- what is called back accepts what the library gives
    def resolve(self, site, e, depth=0):
        """Python functions (with number of bound arguments) that expression e of the site can be"""
        if depth > 4: return []
        if isinstance(e, ast.Attribute):
            v = None
            if isinstance(e.value, ast.Name):
                v = site.env.get(e.value.id)
                if e.value.id in site.loc and isinstance(site.loc[e.value.id], ast.Call):
                    c = self.pkg.ev(site.loc[e.value.id].func, site.env, site.mod)
                    if isinstance(c, PyClass): v = c
            elif isinstance(e.value, ast.Call):
                c = self.pkg.ev(e.value.func, site.env, site.mod)
                if isinstance(c, PyClass): v = c
            if isinstance(v, PyClass):
                f = v.get(e.attr)
                if isinstance(f, PyFunc): return [(f, 0 if any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in f.node.decorator_list) else 1)]
            return []
        if isinstance(e, ast.Name):
            ps = [a.arg for a in site.func.args.args]
            if e.id in ps and e.id not in site.loc:
                i = ps.index(e.id) - (1 if site.cls is not None else 0); out = []
                for s2 in self.callers(site, i, e.id): out += self.resolve(s2[0], s2[1], depth + 1)
                return out
            if e.id in site.loc: return self.resolve(site, site.loc[e.id], depth + 1)
            v = site.env.get(e.id)
            return [(v, 0)] if isinstance(v, PyFunc) else []
        if isinstance(e, ast.Lambda): return [(Obj(node=e, name="lambda", mod=site.mod), 0)]
        return []

    def callers(self, site, i, pname):
        out = []
        for m, cls, node, env in functions(self.pkg):
            sc = Scope(env); loc = {}
            if cls is not None and node.args.args: sc[node.args.args[0].arg] = cls
            for s in ast.walk(node):
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name): loc[s.targets[0].id] = s.value
            for s in ast.walk(node):
                if not (isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr == site.func.name and isinstance(s.func.value, ast.Name)): continue
                c = None
                if s.func.value.id in loc and isinstance(loc[s.func.value.id], ast.Call): c = self.pkg.ev(loc[s.func.value.id].func, sc, m)
                if not (isinstance(c, PyClass) and site.cls in c.mro() and c.get(site.func.name).node is site.func): continue
                a = s.args[i] if i < len(s.args) else next((k.value for k in s.keywords if k.arg == pname), None)
                if a is not None: out.append((Obj(mod=m, cls=cls, func=node, env=sc, loc=loc, node=s), a))
        return out

    def targets(self):
        C = self.C
        for s in self.cbs:
            if len(s.node.args) != 1: continue
            n = len(s.type[2])
            for f, bound in self.resolve(s, s.node.args[0]):
                a = f.node.args; lo = len(a.args) - len(a.defaults) - bound; hi = None if a.vararg else len(a.args) - bound
                ok = lo <= n and (hi is None or n <= hi)
                C.obligation("%s takes the %d arguments of its callback type" % (f.name, n), ok)
                if not ok: C.violation("ffi:handler:" + f.name, "%s is called back with %d arguments but takes %s" % (f.name, n, lo if lo == hi else "%s to %s" % (lo, hi)), "%s:%d" % (f.mod.path, f.node.lineno))

    def isparam(self, f, v):
        if v[0] != "r": return False
        if any(a["id"] == v[1] for a in f.args): return True
        for b in f.blocks:
            for i in b:
                if i.get("id") == v[1] and i["op"] in ("phi", "select", "bitcast", "getelementptr"):
                    return any(self.isparam(f, x) for x in [o for o in i.get("ops", [])] + [x for x, _ in i.get("in", [])] + ([i["base"]] if "base" in i else []))
        return False

    # ---- a handle is the same address as its base class
    def bases(self):
        C = self.C
        names = [n for n in self.pkg.fns if n in self.exports]
        q = []; 
        for n in names:
            if self.exports[n].ret == "ptr": q.append((n, "r", "pointee<ret<decltype(&Centaurus::%s)>>" % n))
            for i, a in enumerate(self.exports[n].args):
                if a["type"] == "ptr": q.append((n, i, "pointee<%s>" % self.arg(n, i)))
        ts = dict(((n, k), re.sub(r"^(class|struct) ", "", t or "")) for (n, k, _), t in zip(q, self.show([x[2] for x in q])))
        full = lambda t: t if t in self.mod.types else "Centaurus::" + t if "Centaurus::" + t in self.mod.types else None
        made = {full(t): n for (n, k), t in ts.items() if k == "r" and full(t)}
        def up(c, off):
            yield c, off
            for o, b in self.mod.types.get(c, {}).get("bases", []): yield from up(b[1], off + o)
        for c, n in sorted(made.items()):
            for (m, k), t in sorted(ts.items(), key=str):
                if k == "r" or not full(t): continue
                for b, off in up(c, 0):
                    if b == full(t) and b != c:
                        C.obligation("a %s from %s is a %s for %s at the same address" % (c, n, b, m), off == 0)
                        if off: C.violation("ffi:base:%s:%s" % (c, b), "%s returns a %s, whose %s part is %d bytes further; %s takes the address as it is" % (n, c, b, off, m), self.exports[m].file)
        # destroying through a base class reaches the whole object
        for n in names:
            ex = self.exports[n]
            dels = any(i["op"] in ("call", "invoke") and i["callee"][0] == "g" and i["callee"][1].startswith("_ZdlPv") and self.isparam(ex, i["args"][0]) for b in ex.blocks for i in b)
            for (m, k), t in ts.items():
                if m != n or k == "r" or not full(t): continue
                kinds = [c for c in made if any(b == full(t) for b, _ in up(c, 0)) and c != full(t)] + [c for c in self.mod.types if any(b == full(t) and c != b for b, _ in up(c, 0))]
                if not kinds: continue
                C.obligation("%s leaves a %s to the destructor of what it is" % (n, full(t)), not dels)
                if dels: C.violation("ffi:destroy:" + n, "%s deletes a %s without its virtual destructor: what %s adds is never destroyed" % (n, full(t), kinds[0]), "%s:%d" % (ex.file, ex.line))
        # every handle type made must be related to what takes it: methods pass self.handle of the class whose creator they call
        for s in self.sites:
            if s.cls is None or s.fn.name not in self.exports: continue
            for i, a in enumerate(s.node.args):
                if not (isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name) and self.exports[s.fn.name].args[i:i + 1] and self.exports[s.fn.name].args[i]["type"] == "ptr"): continue
                if a.value.id != (s.func.args.args[0].arg if s.func.args.args else None): continue
                mk = self.makers(s.cls, a.attr)
                want = full(ts.get((s.fn.name, i), ""))
                for g in mk:
                    got = full(ts.get((g, "r"), ""))
                    if got is None or want is None: continue
                    ok = any(b == want for b, _ in up(got, 0))
                    C.obligation("%s.%s given to %s is a %s" % (s.cls.name, a.attr, s.fn.name, want), ok)
                    if not ok: C.violation("ffi:handle:%s:%s" % (s.cls.name, s.fn.name), "%s takes a %s, but %s.%s comes from %s, which makes a %s" % (s.fn.name, want, s.cls.name, a.attr, g, got), self.where(s))

    def makers(self, cls, attr):
        out = set()
        for s in self.sites:
            if s.cls is None or cls not in s.cls.mro() and s.cls not in cls.mro(): continue
            for n in ast.walk(s.func):
                if isinstance(n, ast.Assign) and n.value is s.node and any(isinstance(t, ast.Attribute) and t.attr == attr for t in n.targets) and s.cls in cls.mro(): out.add(s.fn.name)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "__init__" and any(a is s.node for a in n.args) and cls in s.cls.mro(): out.add(s.fn.name)
        return out


def main():
    C = report.Check("P24", "proof", "compile-time witnesses generated from the Python syntax tree, class layouts and callback escape analysis of the compiled exports")
    f = FFI(C)
    f.check()
    C.stats.update({"exports": sorted(f.exports), "python_call_sites": len(f.sites), "callbacks": len(f.cbs)})
    C.finish("Every native function that the Python package declares or calls is looked up among the exports; one static_assert per parameter, callback argument and result, generated from the Python declarations, is type-checked against the exports (asmjit replaced by declarations); record fields are compared with class layouts; callbacks that the compiled library stores must be held by an attribute; handles passed as base classes must have offset 0.",
             min_obl=40, assumptions=["LP64, little-endian, a C calling convention in which the caller removes the arguments (a callback may ignore trailing ones)"])


report.main(main)
