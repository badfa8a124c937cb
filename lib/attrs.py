"""Provenance of attributes: standard-library values as opaque tokens.

Every plain attribute and every standard-library object of an abstract source
object carries a token naming it; copying, moving, assigning or swapping such
an object moves the token.  What a function leaves in its result then shows
which attribute of which operand each attribute of the result came from."""
import re
from engine import *
from engine import AV, Ptr, Agg, Obj, TOP, UNDEF, Unsupported, Violation
from containers import parse_dem, split_top
from linseq import Tok, Lin, CInt, tok, SeqEngine, SeqDomain, container_handler, isnum, ladd
from ir import AnalysisBroken

OPAQUE = ("std::", "__gnu_cxx::")


def nosp(s): return s.replace(" ", "").replace("std::__cxx11::", "std::")


def is_std(t): return t.startswith(OPAQUE)


def leaves(mod, cls, base=0, path="", split=()):
    """[(path, off, size, kind, type)] of an object of class cls"""
    t = mod.types.get(cls)
    if t is None:
        for n in mod.types:
            if nosp(n) == nosp(cls): t = mod.types[n]; break
    if t is None: raise AnalysisBroken("no layout of %s" % cls)
    out = []
    for off, b in t["bases"]:
        if is_std(b[1]): out.append((path + "<base>", base + off, b[2], "std", b[1]))
        else: out += leaves(mod, b[1], base + off, path, split)
    for n, off, k in t["members"]:
        if n.startswith("_vptr"): continue
        if k[0] == "class":
            if is_std(k[1]): out.append((path + n, base + off, k[2], "std", k[1]))
            elif k[1] in mod.types or any(nosp(x) == nosp(k[1]) for x in mod.types): out += leaves(mod, k[1], base + off, path + n + ".", split)
            else: out.append((path + n, base + off, k[2], "std", k[1]))
        else: out.append((path + n, base + off, k[2], k[0], k[1]))
    return out


def src_value(name, l):
    path, off, size, kind, ty = l
    if kind == "basic" and size in (2, 4, 8) and ty != "bool": return tok("%s.%s" % (name, path))
    return Tok((name, path), name.startswith('!'))


def make(mod, st, cls, name, pin=False):
    """an object of class cls whose leaves carry tokens"""
    size = next((mod.types[n]["size"] for n in mod.types if nosp(n) == nosp(cls)), None)
    oid = st.new(size, "stack")
    fill_at(mod, st, oid, 0, cls, name)
    return oid


def fill_at(mod, st, oid, base, cls, name):
    o = st.mem[oid]
    for l in leaves(mod, cls):
        o.cells[base + l[1]] = (l[2], src_value(name, l))


def cell(st, oid, off, size):
    o = st.mem.get(oid)
    if o is None: return None
    c = o.cells.get(off)
    if c is None: return None
    return c[1]


EMPTY = Tok("empty")


def szkey(s): return nosp(re.sub(r"\bconst\b", "", s))


def sizes(E, cls):
    k = szkey(cls)
    t = getattr(E, "_sz", None)
    if t is None:
        t = E._sz = {}
        for n, d in E.mod.types.items():
            if d.get("size"): t[szkey(n)] = d["size"]
            for _, b in d.get("bases", []): t.setdefault(szkey(b[1]), b[2])
            for _, _, kk in d.get("members", []):
                if kk[0] == "class": t.setdefault(szkey(kk[1]), kk[2])
    return t.get(k)


def full_class(dem, m):
    """the class part of a demangled method name, template arguments included"""
    d = 0
    s = re.sub(r"\[abi:[^\]]*\]", "", dem)
    i = 0; last = None
    while i < len(s):
        c = s[i]
        if c in "<(" and not s.startswith("operator", max(0, i - 8)):
            if c == "(" and d == 0: break
            d += 1
        elif c in ">)": d -= 1
        elif d == 0 and s.startswith("::", i): last = i
        i += 1
    return s[:last] if last else ""


def get_std(E, st, p, ins):
    if not isinstance(p, Ptr): raise Unsupported("standard object at unknown address %r at %s" % (p, E.loc(ins)))
    o = E.getobj(st, p.obj)
    c = o.cells.get(p.off) if o else None
    if c is None: raise Unsupported("standard object used before construction at %s" % E.loc(ins))
    return c


def put_std(E, st, p, v, size, ins):
    o = st.wobj(p.obj)
    E.clear_range(o, p.off, size)
    o.cells[p.off] = (size, v)


class ItTok(AV):
    __slots__ = ("v", "end")
    def __init__(self, v, end): self.v = v; self.end = end
    def canon(self, ren): return (self.v.canon(ren), self.end)
    def __eq__(self, o): return isinstance(o, ItTok) and o.v == self.v and o.end == self.end
    def __hash__(self): return hash((self.v, self.end))


def opaque_handler(E, f):
    """handlers of methods of standard classes treated as one opaque value"""
    c, ca, m, params = parse_dem(f.dem)
    if not c or not is_std(c): return None
    last = c.split("::")[-1].replace("basic_string", "basic_string")
    cls = full_class(f.dem, m)
    if not cls: return None
    if c.startswith("__gnu_cxx::__normal_iterator") or c in ("std::allocator", "std::__cxx11::allocator", "__gnu_cxx::new_allocator", "std::__new_allocator"):
        if m in ("__normal_iterator",): return None
    if c.endswith("allocator") or c == "std::initializer_list": return None
    sz = sizes(E, cls)
    if m == "~" + last:
        return lambda E, st, f, a, ins: ("val", None)
    if sz is None: return None
    if m == last:
        ps = [p for p in params if not p.startswith("std::allocator") and "std::allocator<" != p[:15]]
        if not ps: return lambda E, st, f, a, ins: (put_std(E, st, a[0], EMPTY, sz, ins), ("val", None))[1]
        if nosp(ps[0]) in (nosp(cls) + "const&", nosp(cls) + "&&"):
            def h(E, st, f, a, ins):
                v = get_std(E, st, a[1], ins)[1]
                put_std(E, st, a[0], v, sz, ins)
                return ("val", None)
            return h
        if len(ps) == 2 and "iterator" in ps[0]:
            def h(E, st, f, a, ins):
                x, y = a[1], a[2]
                if isinstance(x, ItTok) and isinstance(y, ItTok) and x.v == y.v and not x.end and y.end:
                    put_std(E, st, a[0], x.v, sz, ins); return ("val", None)
                raise Unsupported("range constructor of %s at %s" % (c, E.loc(ins)))
            return h
        return None
    if m == "operator=" and params and nosp(params[0]) in (nosp(cls) + "const&", nosp(cls) + "&&"):
        def h(E, st, f, a, ins):
            put_std(E, st, a[0], get_std(E, st, a[1], ins)[1], sz, ins)
            return ("val", a[0])
        return h
    if m == "swap":
        def h(E, st, f, a, ins):
            x = get_std(E, st, a[0], ins)[1]; y = get_std(E, st, a[1], ins)[1]
            put_std(E, st, a[0], y, sz, ins); put_std(E, st, a[1], x, sz, ins)
            return ("val", None)
        return h
    if m == "clear": return lambda E, st, f, a, ins: (put_std(E, st, a[0], EMPTY, sz, ins), ("val", None))[1]
    if m == "reserve": return lambda E, st, f, a, ins: ("val", None)
    if m in ("begin", "cbegin", "end", "cend"):
        return lambda E, st, f, a, ins: ("val", ItTok(get_std(E, st, a[0], ins)[1], "end" in m))
    if m == "assign" and len(params) == 1:
        return lambda E, st, f, a, ins: (put_std(E, st, a[0], get_std(E, st, a[1], ins)[1], sz, ins), ("val", a[0]))[1]
    return None


class AttrEngine(SeqEngine):
    """element types in self.seqs are modelled as sequences, every other standard object is opaque"""
    seqs = ()

    def handler(self, f):
        if f.name in self.hcache: return self.hcache[f.name]
        h = Engine.handler(self, f)
        if h is None:
            c, ca, m, p = parse_dem(f.dem)
            el = ca[0] if ca else (p[0] if p else "")
            if any(s in nosp(el.split("<")[0] if not el.startswith("Centaurus::") else el) or nosp(el).startswith(s) for s in self.seqs) or self.seq_call(c, f.dem):
                h = container_handler(self, f)
            if h is None and c == "std::vector" and self.seqs and any(nosp(ca[0]).startswith(s) for s in self.seqs): h = container_handler(self, f)
        if h is None: h = opaque_handler(self, f)
        if h is None and f.noreturn and not f.defined:
            from linseq import throw_or_abort
            h = throw_or_abort
        self.hcache[f.name] = h
        return h

    def seq_call(self, c, dem):
        if c not in ("__gnu_cxx::__normal_iterator", "__gnu_cxx", "std"): return False
        d = nosp(dem)
        return any("vector<" + s in d for s in self.seqs)
