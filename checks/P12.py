"""P12: machine ids are 1..n in definition order, the same in every view, and the first rule is the root."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import ir, report
from ir import AnalysisBroken
from engine import *
from engine import Ptr, Agg, UNDEF, TOP, Violation, Unsupported
from linseq import Tok, Lin, CInt, tok, Seq, SeqDomain, SeqEngine, getseq, setseq, initseq, ladd, lsub, var, isnum, decide, again, parts
import attrs
from attrs import leaves, nosp, fill_at, parse_dem, is_std, cell, AttrEngine, opaque_handler, full_class
import containers

LIMIT = 1 << 15     # a marker has 15 bits for the machine id
CUR, OLD, FIRST, EMPTY = Tok("rule"), Tok("former rule"), Tok("first rule"), attrs.EMPTY
ID = "Centaurus::Identifier"


def fld(mod, cls, name):
    for l in leaves(mod, cls):
        if l[0] == name: return l
    raise AnalysisBroken("%s has no attribute %s" % (cls, name))


class Dom(SeqDomain):
    int_marks = True

    def extern(self, E, st, f, a, ins):
        # everything outside the grammar object: streams, messages, strings
        for x in a:
            if isinstance(x, Ptr) and x.obj == E.gobj and not f.dem.startswith("__cxa"): raise Unsupported("%s is applied to the grammar at %s" % (f.dem, E.loc(ins)))
        return ("val", TOP)

    def classify(self, E, st, et, oid): return ("gen", et)

    def generate(self, E, st, oid, form):
        for l in leaves(E.mod, form[1]): st.mem[oid].cells[l[1]] = (l[2], OLD)

    def pushed(self, E, st, p, oid, ins):
        if p.obj != E.gobj: return
        nm = name_of(E, st, Ptr(oid, 0))
        pend(E, st, "pushed", nm, ins)

    def icmp(self, E, st, pred, a, b, bits):
        for x, k, sw in ((a, b, False), (b, a, True)):
            if isinstance(x, Lin) and isinstance(k, int) and 1000 < k < (1 << 31):
                p = pred[1:] if pred not in ("eq", "ne") else pred
                if sw: p = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(p, p)
                lo = {"lt": k, "le": k + 1, "gt": k + 1, "ge": k}.get(p)      # x < lo decides
                if lo is None: return [(pred == "ne", None), (pred == "eq", lambda s: None)]
                less = p in ("lt", "le")
                def rf(s): s.mon["ub"] = (x, lo)
                return [(less, rf), (not less, None)]
        return SeqDomain.icmp(self, E, st, pred, a, b, bits)

    def load_unknown(self, E, st, p, size, ins): return TOP
    def store_unknown(self, E, st, p, v, size, ins): return True


def loc(f): return "%s:%s" % (f.file, f.line)


def name_of(E, st, p):
    """the text of the Identifier object at p"""
    l = fld(E.mod, ID, "m_id")
    o = E.getobj(st, p.obj)
    c = o.cells.get(p.off + l[1]) if o else None
    return c[1] if c else None


def pend(E, st, what, v, ins):
    st.mon[what] = st.mon.get(what, ()) + (v,)
    if len(st.mon[what]) > 3: raise Unsupported("several rules are registered between two reads")


def renew(st):
    """a new rule name is read: the former current name is an old one"""
    for oid in list(st.mem):
        o = st.mem[oid]
        if any(v == CUR for _, v in o.cells.values()):
            w = st.wobj(oid)
            for a, (s, v) in list(w.cells.items()):
                if v == CUR: w.cells[a] = (s, OLD)


def idents(E, st):
    return getseq(st, (E.gobj, E.gbase + fld(E.mod, E.G, "m_identifiers")[1]))


def checkpoint(E, st, where):
    """all views agree"""
    net = st.mon["net"]; ids = idents(E, st)
    if not isinstance(ids, Seq): raise AnalysisBroken("no list of identifiers")
    ins, pu = st.mon.get("inserted", ()), st.mon.get("pushed", ())
    E.obl += 1
    if ids.total() != net:
        raise Violation("%s: %s rules are registered but %s names are listed" % (where, show(net), show(ids.total())), st, where, "views")
    if ins != pu:
        raise Violation("%s: the rule registered and the name listed differ" % where, st, where, "views")
    st.mon.pop("inserted", None); st.mon.pop("pushed", None)
    root = cell(st, E.gobj, *[E.gbase + fld(E.mod, E.G, "m_root_id.m_id")[1], 32])
    E.obl += 1
    r, sts = decide(E, st, net, lambda s: s == 0)
    if r == "split": raise Unsupported("split at a checkpoint")
    want = EMPTY if r else FIRST
    if root != want:
        raise Violation("%s: the root rule is %s, expected %s" % (where, root, want), st, where, "root")


def show(x): return repr(x)


def split0(E, st):
    """decide whether a rule is registered yet"""
    r, sts = decide(E, st, st.mon["net"], lambda s: s == 0)
    return sts if r == "split" else None


def h_read(E, st, f, a, ins):
    """an Identifier is read from the stream"""
    s = split0(E, st)
    if s: return again(s)
    checkpoint(E, st, E.loc(ins))
    renew(st)
    ok = st.fork()
    E.store(ok, Ptr(a[0].obj, a[0].off + fld(E.mod, ID, "m_id")[1]), CUR, 32, ins) if a[0].obj != E.gobj else None
    if a[0].obj == E.gobj:
        if a[0].off - E.gbase == fld(E.mod, E.G, "m_root_id.m_id")[1] - fld(E.mod, ID, "m_id")[1]:
            raise Violation("the root rule is read from the text", st, E.loc(ins), "root")
    return ("alts", [(ok, ("val", None)), (st.fork(), ("throw", "Centaurus::StreamException"))])


def h_machine(E, st, f, a, ins):
    """ATNMachine(int id, Stream&): parses a rule"""
    i = a[1]
    if not isnum(i): raise Violation("the id of the machine is indeterminate", st, E.loc(ins), "id")
    ub = st.mon.get("ub")
    E.obl += 1
    top = None
    if isinstance(i, int): top = i
    elif ub is not None and isinstance(lsub(i, ub[0]), int):
        top = ub[1] - 1 + parts(lsub(i, ub[0]))[0]
    if top is None or top >= LIMIT:
        raise Violation("a machine id up to %s can be assigned; markers have room for ids up to %d" % ("any number" if top is None else top, LIMIT - 1), st, E.loc(ins), "limit")
    ok = st.fork()
    g = fld(E.mod, E.M, "m_globalid"); n = fld(E.mod, E.M, "m_nodes")
    E.store(ok, Ptr(a[0].obj, a[0].off + g[1]), i, 4, ins)
    o = ok.wobj(a[0].obj); o.cells[a[0].off + n[1]] = (24, Tok("nodes"))
    return ("alts", [(ok, ("val", None)), (st.fork(), ("throw", "Centaurus::StreamException"))])


def key_and_id(E, st, args, ins):
    """key text and machine id of what is inserted"""
    if len(args) == 1:
        p = args[0]
        sz = E.mod.types[ID]["size"]
        key = name_of(E, st, p); m = Ptr(p.obj, p.off + sz)
    else:
        key = name_of(E, st, args[0]); m = args[1]
    c = cell(st, m.obj, m.off + fld(E.mod, E.M, "m_globalid")[1], 4)
    if key is None or c is None: raise Unsupported("what is registered is not understood at %s" % E.loc(ins))
    return key, c


def h_insert(E, st, f, a, ins):
    c, ca, m, p = parse_dem(f.dem)
    args = [x for x in a[1:]]
    if m == "insert_or_assign": raise Violation("a rule defined again replaces the machine that has the name", st, E.loc(ins), "duplicate")
    key, i = key_and_id(E, st, args, ins)
    s = split0(E, st)
    if s: return again(s)
    out = []
    r, _ = decide(E, st, st.mon["net"], lambda x: x == 0)
    known = st.mon.get("known")          # the code has looked the name up before
    if known is not True:
        n = st.fork()
        E.obl += 1
        if not isnum(i) or lsub(i, n.mon["net"]) != 1:
            raise Violation("the machine of rule number %s gets the id %s" % (show(ladd(n.mon["net"], 1)), show(i)), st, E.loc(ins), "id")
        if key != CUR: raise Violation("a machine is registered under another name than its rule's (%s)" % key, st, E.loc(ins), "name")
        if r:
            for oid in list(n.mem):
                o = n.mem[oid]
                if any(v == CUR for _, v in o.cells.values()):
                    w = n.wobj(oid)
                    for k, (sz, v) in list(w.cells.items()):
                        if v == CUR: w.cells[k] = (sz, FIRST)
            n.mon["pushed"] = tuple(FIRST if x == CUR else x for x in n.mon.get("pushed", ()))
            key = FIRST
        n.mon["net"] = ladd(n.mon["net"], 1)
        n.mon.pop("known", None); n.mon.pop("ub", None)
        pend(E, n, "inserted", key, ins)
        out.append((n, 1))
    if not r and known is not False:
        n = st.fork(); n.mon.pop("known", None); out.append((n, 0))
    res = []
    for n, ok in out: res.append((n, ("val", Agg(((0, 8, Tok("node")), (8, 1, ok))))))
    return ("alts", res)


def h_known(kind):
    def h(E, st, f, a, ins):
        key = name_of(E, st, a[1])
        if key != CUR: return ("alts", [(st.fork(), ("val", v)) for v in ((0, 1) if kind == "count" else (MIt(False), MIt(True)))])
        s = split0(E, st)
        if s: return again(s)
        r, _ = decide(E, st, st.mon["net"], lambda x: x == 0)
        out = []
        n = st.fork(); n.mon["known"] = False; out.append((n, ("val", 0 if kind == "count" else MIt(True))))
        if not r:
            n = st.fork(); n.mon["known"] = True; out.append((n, ("val", 1 if kind == "count" else MIt(False))))
        return ("alts", out)
    return h


class MIt(AV):
    __slots__ = ("e",)
    def __init__(self, e): self.e = e
    def canon(self, ren): return self.e
    def __eq__(self, o): return isinstance(o, MIt) and o.e == self.e
    def __hash__(self): return hash(("MIt", self.e))


def h_itcmp(op):
    def h(E, st, f, a, ins):
        v = []
        for x in a[:2]:
            if isinstance(x, Ptr): x = E.load(st, x, 8, ins)
            if not isinstance(x, MIt): raise Unsupported("iterator %r at %s" % (x, E.loc(ins)))
            v.append(x.e)
        return ("val", int((v[0] == v[1]) == (op == "operator==")))
    return h


def h_parse(E, st, f, a, ins):
    """an included file: by contract it registers k rules, numbered on, and returns the next id"""
    i = a[2]
    s = split0(E, st)
    if s: return again(s)
    checkpoint(E, st, E.loc(ins))
    E.obl += 1; E.rec += 1
    if not isnum(i) or lsub(i, st.mon["net"]) != 1:
        raise Violation("an included file starts to number its rules at %s where %s rules exist" % (show(i), show(st.mon["net"])), st, E.loc(ins), "id")
    r, _ = decide(E, st, st.mon["net"], lambda x: x == 0)
    renew(st)
    k0 = st.fork(); out = [(k0, ("val", i))]
    k1 = st.fork(); k = ladd(var(k1), 1)
    k1.mon["net"] = ladd(k1.mon["net"], k)
    lc = (E.gobj, E.gbase + fld(E.mod, E.G, "m_identifiers")[1]); q = getseq(k1, lc)
    setseq(k1, lc, Seq(q.et, q.items + (("G", k, frozenset((("gen", ID),))),)))
    if r:
        l = fld(E.mod, E.G, "m_root_id.m_id")
        k1.wobj(E.gobj).cells[E.gbase + l[1]] = (32, FIRST)
    out.append((k1, ("val", ladd(i, k))))
    out.append((st.fork(), ("throw", "Centaurus::StreamException")))
    return ("alts", out)


class Eng(SeqEngine):
    obl = 0; rec = 0; gobj = None; gbase = 0; inner = True

    def handler(self, f):
        if f.name in self.hcache: return self.hcache[f.name]
        h = self.pick(f)
        self.hcache[f.name] = h
        return h

    def pick(self, f):
        c, ca, m, p = parse_dem(f.dem)
        if c == ID and (m == "Identifier" and p and p[0] == "Centaurus::Stream&" or m == "parse"): return h_read
        if c == "Centaurus::ATNMachine" and m == "ATNMachine" and p and p[0] == "int": return h_machine
        if c == "Centaurus::Grammar" and m == "parse" and self.inner and "std::" not in f.dem.split("(")[1]: return h_parse
        if c == "Centaurus::Stream":
            n = nosp(f.dem)
            if m == "Stream" or m.startswith("~"): return lambda E, st, f, a, ins: ("val", None)
            return h_any_or_throw
        if c == "Centaurus::StreamException" or c == "Centaurus::Encoder": return lambda E, st, f, a, ins: ("val", TOP)
        if c == "std::unordered_map" and ca and ID in ca[0] and "ATNMachine" in ca[1]:
            if m in ("insert", "emplace", "try_emplace", "insert_or_assign"): return h_insert
            if m in ("find",): return h_known("find")
            if m == "count": return h_known("count")
            if m in ("end", "cend"): return lambda E, st, f, a, ins: ("val", MIt(True))
            if m in ("size",): return h_size
            if m in ("empty",): return h_empty
            if m in ("at",): return h_at
            if m in ("unordered_map",): return h_mapctor
            if m.startswith("~") or m == "reserve": return lambda E, st, f, a, ins: ("val", None)
            def h(E, st, f, a, ins): raise Unsupported("map operation %s" % f.dem[:100])
            return h
        if m in ("operator==", "operator!=") and "_Node" in f.dem and "ATNMachine" in f.dem: return h_itcmp(m)
        if c == "std::vector" and ca and nosp(ca[0]) == ID: return SeqEngine.handler(self, f)
        if c in ("__gnu_cxx::__normal_iterator", "__gnu_cxx") and "vector<" + ID in nosp(f.dem): return SeqEngine.handler(self, f)
        if "basic_string<wchar_t" in f.dem:
            if m in ("empty",): return h_strempty
            if m == "compare" or m.startswith("operator==") or m.startswith("operator!="): return lambda E, st, f, a, ins: ("val", TOP)
            if m in ("c_str", "data"): return h_cstr
            if m in ("length", "size"): return h_strlen
            h = opaque_handler(self, f)
            if h and m not in ("basic_string",) or h and len(p) == 1: return h if m != "basic_string" or "basic_string" in p[0] else None
            if m == "basic_string" and not p: return h
            return None
        if c == "Centaurus" : return None
        if "make_include_path" in f.dem: return lambda E, st, f, a, ins: ("val", TOP)
        if c and c.startswith("std::pair"): return None
        if c and is_std(c) and f.defined and not c.startswith("std::pair"):
            if ID in f.dem or "ATNMachine" in f.dem: return Engine.handler(self, f)
            return lambda E, st, f, a, ins: E.dom.extern(E, st, f, a, ins)
        return Engine.handler(self, f)


def h_any_or_throw(E, st, f, a, ins):
    if f.dem.split("(")[0].endswith(("toomany", "unexpected")): return ("val", TOP)
    return ("alts", [(st.fork(), ("val", TOP)), (st.fork(), ("throw", "Centaurus::StreamException"))])


def h_strempty(E, st, f, a, ins):
    c = cell(st, a[0].obj, a[0].off, 32) if isinstance(a[0], Ptr) else None
    if c == EMPTY: return ("val", 1)
    if c in (CUR, OLD, FIRST): return ("val", 0)
    return ("val", TOP)


def h_strlen(E, st, f, a, ins):
    c = cell(st, a[0].obj, a[0].off, 32) if isinstance(a[0], Ptr) else None
    if c == EMPTY: return ("val", 0)
    if c in (CUR, OLD, FIRST): return ("val", ladd(var(st), 1))
    return ("val", TOP)


def h_cstr(E, st, f, a, ins):
    o = E.getobj(st, a[0].obj)
    c = o.cells.get(a[0].off) if o else None
    return ("val", Tok(("text of", c[1] if c else None, a[0].obj)) if c else TOP)


def h_size(E, st, f, a, ins): return ("val", st.mon["net"])


def h_empty(E, st, f, a, ins):
    s = split0(E, st)
    if s: return again(s)
    return ("val", 1 if decide(E, st, st.mon["net"], lambda x: x == 0)[0] else 0)


def h_mapctor(E, st, f, a, ins):
    if a[0].obj == E.gobj: st.mon["net"] = CInt(0)
    return ("val", None)


def h_at(E, st, f, a, ins):
    """m_networks.at(id): the machine registered under that name"""
    st.mon["asked"] = name_of(E, st, a[1])
    o = st.new(E.mod.types[E.M]["size"], "heap")
    fill_at(E.mod, st, o, 0, E.M, "machine")
    return ("val", Ptr(o, 0))


def grammar(E, st, n):
    """a grammar with n rules"""
    g = st.new(E.mod.types[E.G]["size"], "heap")
    fill_at(E.mod, st, g, 0, E.G, "g")
    E.gobj = g; E.gbase = 0
    o = st.mem[g]
    o.cells[fld(E.mod, E.G, "m_identifiers")[1]] = (24, Seq(ID, (("G", n, frozenset((("gen", ID),))),) if n != 0 else ()))
    o.cells[fld(E.mod, E.G, "m_root_id.m_id")[1]] = (32, EMPTY if n == 0 else FIRST)
    st.mon["net"] = n
    return g


def find(mod, cls, m, test=lambda p: True):
    r = [f for f in mod.functions.values() if f.defined and f.cls == cls and parse_dem(f.dem)[2] == m and test([x for x in parse_dem(f.dem)[3] if x])]
    if len(r) != 1: raise AnalysisBroken("%d functions %s::%s" % (len(r), cls, m))
    return r[0]


def eng(mod, T, inner=True):
    E = Eng(mod, Dom(), max_time=100, max_states=60000)
    E.G = "Centaurus::Grammar<%s>" % T; E.M = "Centaurus::ATNMachine<%s>" % T; E.inner = inner
    return E


def main():
    C = report.Check("P12", "proof", "abstract interpretation of the rule registration loop with symbolic counts, one token per rule name; views by attribute provenance")
    mod = ir.compile_tu(ir.VERIF + "/tu/ids.cpp")
    n = 0
    for T in ("char", "unsigned char", "wchar_t"):
        G = "Centaurus::Grammar<%s>" % T
        key = lambda k: "ids:%s:%s" % (k, T)
        # registration: from the start and while included
        f = find(mod, G, "parse", lambda p: "char const*" in p[0])
        E = eng(mod, T)
        rets = 0
        for start in (0, 1):
            st = State()
            cnt = CInt(0) if not start else ladd(var(st), 1)
            g = grammar(E, st, cnt)
            try:
                E.hcache.clear(); E.hcache[f.name] = None
                E.start(st, f, [Ptr(g, 0), Tok("path"), ladd(cnt, 1)])
                E.hcache[f.name] = h_parse
                for k, s, v in E.run([st]):
                    if k != "ret": continue
                    rets += 1
                    for q in (split0(E, s) or [s]):
                        checkpoint(E, q, "the end of " + f.dem.split("(")[0])
                        E.obl += 1
                        vv = v if not isinstance(v, Lin) else v
                        if q is s and (not isnum(vv) or lsub(vv, s.mon["net"]) != 1):
                            raise Violation("parse returns %s where %s rules exist" % (show(v), show(s.mon["net"])), s, loc(f), "id")
            except Violation as v:
                C.violation(key(v.rule), "%s: %s" % (f.dem[:60], v.msg), v.loc or loc(f), v.st.trace_list() if v.st else [])
        if not rets and not C.viol: raise AnalysisBroken("%s never returns" % f.dem)
        n += E.obl; rec = E.rec
        C.obligation("%s numbers, lists and registers every rule alike" % f.dem[:60], True, file=f.file, line=f.line)
        # the parameter default: constructors and callers outside start at 1
        callers(C, mod, G, f, key)
        views(C, mod, T, G, key)
    C.stats.update(obligations_in_parse=n)
    C.finish("Every path through the registration loop of Grammar::parse, for any number of rules already there and included files by contract: ids, names and machines stay in step; "
             "every accessor that maps between id, name and machine is interpreted on symbolic tables.", min_obl=20)


def callers(C, mod, G, f, key):
    """every call from outside passes the first id"""
    short = [x for x in mod.functions.values() if x.defined and x.cls == G and parse_dem(x.dem)[2] == "parse"]
    names = {x.name for x in short}
    k = 0
    for g in mod.functions.values():
        if not g.defined or g.name in names: continue
        for blk in g.blocks:
            for ins in blk:
                if ins["op"] in ("call", "invoke") and ins["callee"][0] == "g" and ins["callee"][1] in names:
                    k += 1
                    a = ins["args"][2]
                    ok = a[0] == "i" and a[1] == 1 or a[0] == "c" and a[1] == 1 or list(a)[-1] == 1 or 1 in list(a)[1:2]
                    C.obligation("%s starts numbering at 1" % g.dem[:80], ok, file=g.file, line=g.line)
                    if not ok: C.violation(key("start"), "%s starts to number rules at %r" % (g.dem[:80], a), loc(g))
    if k == 0: raise AnalysisBroken("no caller of %s" % f.dem)
    # the overload passes its arguments on
    for s in short:
        if s is f: continue
        E = eng(mod, G[len("Centaurus::Grammar<"):-1], True); st = State(); g = grammar(E, st, ladd(var(st), 1))
        hit = []
        E.hcache[f.name] = lambda E, st, f, a, ins: (hit.append(a), ("val", tok("next")))[1]
        E.hcache[s.name] = None
        E.start(st, s, [Ptr(g, 0), Ptr(st.new(32, "stack"), 0), tok("id")])
        for k2, q, v in E.run([st]):
            ok = hit and hit[-1][0] == Ptr(g, 0) and hit[-1][2] == tok("id") and v == tok("next")
            C.obligation("%s passes the id on" % s.dem[:60], bool(ok))
            if not ok: C.violation(key("overload"), "%s does not pass the id on" % s.dem, loc(s))


def views(C, mod, T, G, key):
    def bad(k, msg, f): C.violation(key(k), msg, loc(f))
    # number of machines
    f = find(mod, G, "get_machine_num", lambda p: not p)
    E = eng(mod, T); st = State(); n = var(st); g = grammar(E, st, n)
    for k, s, v in run(E, st, f, [Ptr(g, 0)]):
        ok = k == "ret" and v == s.mon["net"]
        C.obligation("get_machine_num is the number of rules", ok, file=f.file, line=f.line)
        if not ok: bad("num", "get_machine_num returns %s for %s rules" % (show(v), show(s.mon["net"])), f)
    # id of a name
    f = find(mod, G, "get_machine_id", lambda p: len(p) == 1)
    E = eng(mod, T); st = State(); g = grammar(E, st, ladd(var(st), 1))
    i = st.new(E.mod.types[ID]["size"], "stack"); fill_at(mod, st, i, 0, ID, "asked")
    for k, s, v in run(E, st, f, [Ptr(g, 0), Ptr(i, 0)]):
        ok = k == "ret" and v == tok("machine.m_globalid") and s.mon.get("asked") == Tok(("asked", "m_id"))
        C.obligation("get_machine_id(name) is the id of the machine of that name", ok, file=f.file, line=f.line)
        if not ok: bad("id", "get_machine_id returns %s" % show(v), f)
    # name of an id
    f = find(mod, G, "lookup_id", lambda p: len(p) == 1)
    E = eng(mod, T); st = State(); x = var(st); y = var(st); g = grammar(E, st, ladd(ladd(x, y), 1))
    e = tracked(E, st, g, x, y)
    st.mon["$x"] = x
    for k, s, v in run(E, st, f, [Ptr(g, 0), x]):
        ok = k == "ret" and v == Ptr(e, 0)
        C.obligation("lookup_id(i) is the i-th name", ok, file=f.file, line=f.line)
        if not ok: bad("lookup", "lookup_id(i) does not return the i-th name", f)
    # root
    f = find(mod, G, "get_root_id", lambda p: not p)
    E = eng(mod, T); st = State(); g = grammar(E, st, ladd(var(st), 1))
    for k, s, v in run(E, st, f, [Ptr(g, 0)]):
        ok = k == "ret" and isinstance(v, Ptr) and name_of(E, s, v) == FIRST
        C.obligation("get_root_id is the first rule", ok, file=f.file, line=f.line)
        if not ok: bad("root", "get_root_id does not return the first rule", f)
    # the machine keeps the id it is given, through construction, move and access
    M = "Centaurus::ATNMachine<%s>" % T
    f = find(mod, M, "get_unique_id", lambda p: not p)
    for c in [x for x in mod.functions.values() if x.defined and x.cls == M and parse_dem(x.dem)[2] == "ATNMachine" and parse_dem(x.dem)[3] and parse_dem(x.dem)[3][0] == "int"]:
        E = eng(mod, T); st = State(); o = st.new(mod.types[M]["size"], "heap")
        E.hcache[c.name] = None
        for q in mod.functions.values():
            if q.cls == M and parse_dem(q.dem)[2] == "parse": E.hcache[q.name] = lambda E, st, f, a, ins: ("val", None)
        g = [a for a in range(len(c.args))]
        E.start(st, c, [Ptr(o, 0), tok("id"), Tok("stream")][:len(c.args)])
        for k, s, v in list(E.run([st])):
            if k != "ret": continue
            s.frames = []
            for k2, s2, v2 in run(E, s, f, [Ptr(o, 0)]):
                ok = v2 == tok("id")
                C.obligation("%s: get_unique_id is the id given" % c.dem[:80], ok, file=c.file, line=c.line)
                if not ok: bad("machine", "get_unique_id of a machine built with id i returns %s" % show(v2), c)
    # enumeration
    f = find(mod, G, "enum_machines", lambda p: len(p) == 1)
    E = eng(mod, T); st = State(); x = var(st); y = var(st); g = grammar(E, st, ladd(ladd(x, y), 1))
    e = tracked(E, st, g, x, y)
    st.mon["$x"] = x; st.mon["$end"] = ladd(ladd(x, y), 1); st.mon["next"] = CInt(0)
    def called(E, st, fr, p, a, ins):
        k = st.mon["next"]
        E.obl += 1
        if not isnum(a[1]) or lsub(a[1], k) != 1: raise Violation("the name at position %s is reported with the id %s" % (show(k), show(a[1])), st, E.loc(ins), "enum")
        t = a[0]
        if isinstance(t, Tok) and isinstance(t.n, tuple) and t.n[0] == "text of":
            d = lsub(k, st.mon["$x"])
            if (t.n[1] == Tok("!here", True)) != (d == 0): raise Violation("another name than the one at position %s is reported" % show(k), st, E.loc(ins), "enum")
        else: raise Violation("something other than a name is reported", st, E.loc(ins), "enum")
        st.mon["next"] = ladd(k, 1)
        return ("val", None)
    E.dom.indirect = called
    try:
        cnt = 0
        for k, s, v in run(E, st, f, [Ptr(g, 0), Tok("callback")]):
            cnt += 1
            ok = k == "ret" and s.mon["next"] == s.mon["$end"]
            C.obligation("enum_machines reports every rule once, in order", ok, file=f.file, line=f.line)
            if not ok: bad("enum", "enum_machines ends after %s of %s rules" % (show(s.mon["next"]), show(s.mon["$end"])), f)
        if not cnt: raise AnalysisBroken("enum_machines never returns")
    except Violation as v:
        C.violation(key(v.rule), "enum_machines: " + v.msg, v.loc)


def tracked(E, st, g, x, y):
    e = st.new(E.mod.types[ID]["size"], "elem"); st.mem[e].tag = "pin"
    st.mem[e].cells[fld(E.mod, ID, "m_id")[1]] = (32, Tok("!here", True))
    gf = frozenset((("gen", ID),))
    st.mem[g].cells[fld(E.mod, E.G, "m_identifiers")[1]] = (24, Seq(ID, (("G", x, gf), ("E", e), ("G", y, gf))))
    st.mon["net"] = ladd(ladd(x, y), 1)
    return e


def run(E, st, f, args):
    E.hcache[f.name] = None
    E.start(st, f, args)
    return list(E.run([st]))


report.main(main)
