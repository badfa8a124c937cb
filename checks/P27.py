"""P27: copying, moving, rebasing and rebuilding keep every attribute; records return what they were built from."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import ir, report
from ir import AnalysisBroken
from engine import *
from engine import Ptr, Agg, UNDEF, Violation, Unsupported
from linseq import Tok, Lin, CInt, tok, Seq, SeqDomain, getseq, initseq, ladd, var, lookup, isnum
import attrs
from attrs import AttrEngine, leaves, nosp, make, fill_at, src_value, parse_dem, is_std, EMPTY, cell


class Dom(SeqDomain):
    def extern(self, E, st, f, a, ins): return None

    def classify(self, E, st, et, oid): return ("gen", et)

    def generate(self, E, st, oid, form):
        if form[1] == "int": st.mem[oid].cells[0] = (4, Tok("*int")); return None
        o = st.mem[oid]
        for l in leaves(E.mod, form[1]):
            v = src_value("*o", l)
            o.cells[l[1]] = (l[2], v)
        o.size = E.mod.types[form[1]]["size"] if form[1] in E.mod.types else None
        return None


def strip(s): return re.sub(r"<.*>", "", s).split("::")[-1]


def show(v): return "nothing" if v is None else "an indeterminate value" if v is UNDEF else "a fresh value" if v == EMPTY else repr(v)


def user(f):
    return f.defined and f.cls and f.cls.startswith("Centaurus::") and not f.art


def engine(mod, seqs=()):
    E = AttrEngine(mod, Dom(), max_time=60, max_states=20000); E.seqs = seqs
    return E


def run(E, st, f, args):
    E.start(st, f, args)
    return list(E.run([st]))


def arg_for(E, st, mod, p, name, f, i):
    """abstract argument for one parameter: (value, {token by leaf type})"""
    base = p.rstrip("&").replace("const", "").strip()
    ref = p.endswith("&")
    prim = base in ("int", "unsigned int", "long", "unsigned long", "short")
    if ref and (is_std(base) or any(base.startswith(x) for x in ("std::",))):
        sz = attrs.sizes(E, base)
        oid = st.new(sz, "stack"); st.mem[oid].cells[0] = (sz, Tok((name, "")))
        return Ptr(oid, 0)
    if base.startswith("Centaurus::") and (ref or f.args[i].get("byval") or True) and any(nosp(n) == nosp(base) for n in mod.types):
        if ref or not base_is_enum(mod, base): return Ptr(make(mod, st, base, name), 0)
    if prim and not ref: return tok(name + ".")
    return Tok((name, ""))


def base_is_enum(mod, base): return any(nosp(n) == nosp(base) for n in mod.enums)


def copies(C, mod, seen):
    n = 0
    for f in sorted(mod.functions.values(), key=lambda f: f.dem):
        if not user(f) or f.dem in seen: continue
        c, ca, m, p = parse_dem(f.dem)
        if not p or nosp(p[0]) not in (nosp(f.cls) + "const&", nosp(f.cls) + "&&"): continue
        ctor = m == c.split("::")[-1]
        if not ctor and m != "operator=": continue
        seen.add(f.dem)
        kind = "move" if p[0].endswith("&&") else "copy"
        what = "%s %s of %s" % (kind, "constructor" if ctor else "assignment", f.cls)
        E = engine(mod); st = State()
        this = st.new(mod.types[f.cls]["size"], "heap")
        if not ctor: fill_at(mod, st, this, 0, f.cls, "old")
        src = make(mod, st, f.cls, "src")
        args = [Ptr(this, 0), Ptr(src, 0)]
        over = {}
        for i, q in enumerate(p[1:]):
            v = arg_for(E, st, mod, q, "arg%d" % i, f, i + 2)
            args.append(v)
            over[nosp(q.rstrip("&").replace(" const", "").strip())] = "arg%d" % i
        rs = [r for r in run(E, st, f, args)]
        rets = [r for r in rs if r[0] == "ret"]
        if not rets: raise AnalysisBroken("%s never returns" % f.dem)
        ls = leaves(mod, f.cls)
        used = set()
        for k, s, v in rets:
            for l in ls:
                got = cell(s, this, l[1], l[2])
                exp = src_value("src", l)
                if l[3] == "std" and nosp(l[4]) in over:
                    exp = Tok((over[nosp(l[4])], "")); used.add(over[nosp(l[4])])
                n += 1
                C.obligation("%s: %s" % (what, l[0]), got == exp, file=f.file, line=f.line)
                if got != exp:
                    C.violation("copy:%s:%s:%s" % (strip(f.cls), kind + ("+args" if len(p) > 1 else "") + ("" if ctor else "="), l[0]),
                                "%s does not take over %s (it gets %s)" % (what, l[0], show(got)), "%s:%s" % (f.file, f.line))
            if not ctor and v != Ptr(this, 0):
                C.violation("copy:%s:return" % strip(f.cls), "%s does not return the object" % what, "%s:%s" % (f.file, f.line))
        missing = set(over.values()) - used
        if missing: raise AnalysisBroken("extra argument of %s matches no attribute" % f.dem)
    return n


def tr_states(E, mod, st, oid, off, et, npre=True):
    """a transition list of any length with one tracked element: returns (loc, pinned oid, position, total)"""
    e = make(mod, st, et, "!t")
    st.mem[e].tag = "pin"
    x = var(st); y = var(st)
    g = frozenset((("gen", et),))
    st.mem[oid].cells[off] = (24, Seq(et, (("G", x, g), ("E", e), ("G", y, g))))
    return (oid, off), e, x, y


def field(mod, cls, name):
    for l in leaves(mod, cls):
        if l[0] == name or l[0].endswith("." + name): return l
    raise AnalysisBroken("%s has no attribute %s" % (cls, name))


def accessor(mod, cls, name, nparams=0):
    fs = [f for f in mod.functions.values() if f.defined and f.cls == cls and parse_dem(f.dem)[2] == name and len([x for x in parse_dem(f.dem)[3] if x]) == nparams and (f.dem.endswith("const") or nparams)]
    return fs[0] if fs else None


def observe(E, st, f, oid):
    """value(s) an accessor returns: a value, or the leaves behind a returned reference"""
    out = []
    for k, s, v in E.sync(st, f, [Ptr(oid, 0)]):
        if k == "ret": out.append((s, v))
    if len(out) != 1: raise AnalysisBroken("accessor %s has %d outcomes" % (f.dem, len(out)))
    s, v = out[0]
    if isinstance(v, Ptr): return ("ref", s, v)
    return ("val", s, v)


def rebase(C, mod):
    """offset / rebase_transitions / import_transitions"""
    n = 0
    # one transition, every kind
    for f in sorted(mod.functions.values(), key=lambda f: f.dem):
        c, ca, m, p = parse_dem(f.dem)
        if not f.defined or m != "offset" or not f.cls or not c.endswith("Transition") or p != ["int"]: continue
        E = engine(mod); st = State()
        out = st.new(mod.types[f.cls]["size"], "heap"); src = make(mod, st, f.cls, "src")
        for k, s, v in run(E, st, f, [Ptr(out, 0), Ptr(src, 0), tok("by")]):
            if k != "ret": continue
            for l in leaves(mod, f.cls):
                exp = src_value("src", l)
                if l[0] == "m_dest": exp = ladd(exp, tok("by"))
                got = cell(s, out, l[1], l[2]); n += 1
                C.obligation("%s: %s" % (f.dem, l[0]), got == exp, file=f.file, line=f.line)
                if got != exp: C.violation("rebase:%s:%s" % (strip(f.cls), l[0]), "%s: %s of the shifted transition is %s, expected %s" % (f.dem, l[0], show(got), show(exp)), "%s:%s" % (f.file, f.line))
    # lists of transitions
    for f in sorted(mod.functions.values(), key=lambda f: f.dem):
        c, ca, m, p = parse_dem(f.dem)
        if not f.defined or not f.cls: continue
        if m == "offset" and c == "Centaurus::NFABaseState" and p == ["int"] or m in ("rebase_transitions", "import_transitions"):
            n += lists(C, mod, f, m, p)
    return n


def lists(C, mod, f, m, p):
    ch = "char" if "char" in f.dem else "char"
    mm = re.search(r"<((?:unsigned )?char|wchar_t)\b", f.dem)
    et = "Centaurus::NFATransition<%s>" % mm.group(1)
    E = engine(mod, ("Centaurus::NFATransition<",)); st = State()
    if m == "offset":
        dst = st.new(mod.types[f.cls]["size"], "heap"); srccls = f.cls
        src = make(mod, st, srccls, "src")
        args = [Ptr(dst, 0), Ptr(src, 0), tok("by")]
    else:
        dst = make(mod, st, f.cls, "dst")
        srccls = p[0].replace(" const&", "").strip()
        srccls = next(x for x in mod.types if nosp(x) == nosp(srccls))
        src = make(mod, st, srccls, "src")
        args = [Ptr(dst, 0), Ptr(src, 0), tok("by")]
    tl = field(mod, srccls, "m_transitions")
    loc, e, x, y = tr_states(E, mod, st, src, tl[1], et)
    dl = field(mod, f.cls, "m_transitions")
    d0 = None; dpin = None
    if m != "offset":
        dloc, dpin, dx, dy = tr_states(E, mod, st, dst, dl[1], et)
        for l in leaves(mod, et): st.mem[dpin].cells[l[1]] = (l[2], src_value("!d", l))
        d0 = True
    st.mon["$x"] = x; st.mon["$y"] = y
    if d0: st.mon["$dx"] = dx; st.mon["$dy"] = dy; st.mon["$end"] = ladd(ladd(dx, dy), 1)
    what = "%s::%s" % (strip(f.cls), m); n = 0; outs = 0
    key = "list:%s:" % what
    def bad(k, msg):
        C.violation(key + k, "%s: %s" % (f.dem[:120], msg), "%s:%s" % (f.file, f.line))
    for k, s, v in run(E, st, f, args):
        if k != "ret": continue
        outs += 1
        sq = getseq(s, (dst, dl[1]))
        if not isinstance(sq, Seq): raise AnalysisBroken("no transitions after %s" % f.dem)
        base = 0
        if d0: base = ladd(ladd(s.mon["$dx"], s.mon["$dy"]), 1)
        exp_total = ladd(base, ladd(ladd(s.mon["$x"], s.mon["$y"]), 1))
        ok = sq.total() == exp_total
        if not ok: bad("count", "the result has %r transitions, expected %r" % (sq.total(), exp_total))
        found = False; fd = not d0
        pos = 0
        for it in sq.items:
            if it[0] == "E":
                o = s.mem[it[1]]
                vals = {l[0]: cell(s, it[1], l[1], l[2]) for l in leaves(mod, et)}
                want = {l[0]: src_value("!t", l) for l in leaves(mod, et)}
                want["m_dest"] = ladd(want["m_dest"], tok("by"))
                if any(q is not None and "!t." in repr(q) or isinstance(q, Tok) and q.n[0] == "!t" for q in vals.values()):
                    found = True
                    if pos != ladd(base, s.mon["$x"]): bad("place", "the tracked transition ends at position %r" % (pos,))
                    for a in want:
                        n += 1
                        C.obligation("%s keeps %s of every transition" % (what, a), vals[a] == want[a])
                        if vals[a] != want[a]: bad(a, "%s of a transition becomes %s, expected %s" % (a, show(vals[a]), show(want[a])))
                elif d0 and any("!d." in repr(q) or isinstance(q, Tok) and q.n[0] == "!d" for q in vals.values()):
                    fd = True
                    for l in leaves(mod, et):
                        if vals[l[0]] != src_value("!d", l): bad("own:" + l[0], "%s of a transition already there becomes %s" % (l[0], show(vals[l[0]])))
            pos = ladd(pos, 1 if it[0] == "E" else it[1])
        C.obligation("%s takes over every transition" % what, found and fd)
        if not found: bad("lost", "a transition can get lost")
        if not fd: bad("lost-own", "a transition already there can get lost")
        for l in leaves(mod, f.cls):
            if l[0] == "m_transitions": continue
            exp = src_value("src" if m == "offset" else "dst", l)
            got = cell(s, dst, l[1], l[2]); n += 1
            C.obligation("%s: %s" % (what, l[0]), got == exp)
            if got != exp: bad(l[0], "%s becomes %s, expected %s" % (l[0], show(got), show(exp)))
    if not outs: raise AnalysisBroken("%s never returns" % f.dem)
    return n


RECORDS = [  # class, parameters in order, accessor of each
    (r"Centaurus::NFATransition<char>", ["label", "dest", "is_long", "tag"]),
    (r"Centaurus::ATNTransition<char>", ["dest", "tag"]),
    (r"Centaurus::ATNTransition<char>", ["type", "dest", "tag"]),
    (r"Centaurus::CATNClosureElement", ["path", "color"]),
    (r"Centaurus::CATNClosureElement", ["path", "color", "priority"]),
    (r"Centaurus::CATNDeparture<char>", ["label", "path", "color", "priority"]),
    (r"Centaurus::PriorityChainElement", ["id", "index", "priority"]),
]


def records(C, mod):
    n = 0
    for cls, names in RECORDS:
        fs = []
        for f in mod.functions.values():
            c, ca, m, p = parse_dem(f.dem)
            if f.defined and f.cls == cls and m == c.split("::")[-1] and len(p) == len(names) and nosp(p[0]).rstrip("&").replace("const", "") != nosp(cls) and not (names[0] == "dest" and p[0] != "int") and not (names[0] == "type" and p[0] == "int"): fs.append(f)
        if not fs: continue    # a constructor nothing calls is not compiled
        if len(fs) != 1: raise AnalysisBroken("%d constructors of %s with %d parameters" % (len(fs), cls, len(names)))
        f = fs[0]; E = engine(mod); st = State()
        this = st.new(mod.types[cls]["size"], "heap")
        ps = parse_dem(f.dem)[3]
        args = [Ptr(this, 0)]; kinds = []
        for i, q in enumerate(ps):
            args.append(arg_for(E, st, mod, q, "p%d" % i, f, i + 1)); kinds.append(q)
        rets = [r for r in run(E, st, f, args) if r[0] == "ret"]
        if not rets: raise AnalysisBroken("%s never returns" % f.dem)
        for _, s, _ in rets:
            s.frames = []
            for i, a in enumerate(names):
                g = accessor(mod, cls, a)
                if g is None: raise AnalysisBroken("%s has no accessor %s" % (cls, a))
                how, s2, v = observe(E, s, g, this); n += 1
                if how == "val":
                    ok = v == args[i + 1]; got = show(v)
                else:
                    b = ps[i].rstrip("&").replace("const", "").strip()
                    if is_std(b): ok = cell(s2, v.obj, v.off, attrs.sizes(E, b)) == Tok(("p%d" % i, ""))
                    else: ok = all(cell(s2, v.obj, v.off + l[1], l[2]) == src_value("p%d" % i, l) for l in leaves(mod, b))
                    got = "another attribute"
                C.obligation("%s(%s).%s()" % (strip(cls), ", ".join(names), a), ok, file=f.file, line=f.line)
                if not ok: C.violation("record:%s/%d:%s" % (strip(cls), len(names), a), "%s::%s() does not return what the constructor was given (%s)" % (cls, a, got), "%s:%s" % (f.file, f.line))
    return n


def setters(C, mod):
    """dest(x) changes the destination and nothing else"""
    n = 0
    for cls in ("Centaurus::NFATransition<char>", "Centaurus::ATNTransition<char>"):
        f = accessor(mod, cls, "dest", 1)
        if f is None: raise AnalysisBroken("%s has no dest(int)" % cls)
        E = engine(mod); st = State(); o = make(mod, st, cls, "src")
        for k, s, v in run(E, st, f, [Ptr(o, 0), tok("new")]):
            if k != "ret": continue
            for l in leaves(mod, cls):
                exp = tok("new") if l[0] == "m_dest" else src_value("src", l)
                got = cell(s, o, l[1], l[2]); n += 1
                C.obligation("%s::dest(x): %s" % (strip(cls), l[0]), got == exp)
                if got != exp: C.violation("setter:%s:%s" % (strip(cls), l[0]), "%s::dest(x) leaves %s as %s" % (cls, l[0], show(got)), "%s:%s" % (f.file, f.line))
    return n


def main():
    C = report.Check("P27", "proof", "attribute provenance: abstract interpretation of copies, rebases and record constructors with one token per attribute")
    mod = ir.compile_tu(ir.VERIF + "/tu/core.cpp")
    seen = set()
    def guard(fn, *a):
        try: return fn(*a)
        except Violation as v:
            C.violation("%s:%s" % (v.rule, fn.__name__), v.msg, v.loc, v.st.trace_list() if v.st else []); return 0
    a = guard(copies, C, mod, seen); b = guard(rebase, C, mod); c = guard(records, C, mod); d = guard(setters, C, mod)
    C.stats.update(copy_attributes=a, rebase_attributes=b, record_attributes=c, setter_attributes=d, functions=len(seen))
    C.finish("Every user-written copy or move constructor and assignment, every rebase of transitions and every value record is interpreted on an object whose attributes carry distinct tokens; "
             "each attribute of the result must hold the token of the attribute it stands for.", min_obl=150)


report.main(main)
