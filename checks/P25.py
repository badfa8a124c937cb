"""P25: the stages of a session agree on the file, the shared memory and its names."""
import sys, os, ast
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import ir, report
from session import *
from autom import LIBRARY, ConcreteEngine
from pysession import python_session

GRID = [(s, n) for s in (1, 8, 4095, 4096, 65536, 8 * 2**20 - 1, 8 * 2**20, 8 * 2**20 + 1, 3 * 2**20, 24 * 2**20, 2**31, 2**32 + 5) for n in (1, 2, 3, 7, 64, 1000)]


def env_of(s, n): return {"bank size": s, "bank count": n, "pid": 4711, "own pid": 815, "size of the file": 10**6}


def pick(ways, s, n):
    """the way a constructor goes for these parameters"""
    w = [x for x in ways if holds(x[0], env_of(s, n))]
    if len(w) != 1: raise AnalysisBroken("%d ways through a constructor for banks of %d bytes and %d banks" % (len(w), s, n))
    return w[0]


def layout(C):
    """the system calls of the constructors, compared"""
    groups = {}
    for title, cls, role, make in owners():
        if not role: continue
        S = make(False); at = "%s:%s" % (S.ctor.file, S.ctor.line)
        rets = [s for k, s, _ in S.build() if k == "ret"]
        if not rets: raise AnalysisBroken("the constructor of %s: no way through" % title)
        before = len(C.viol); ways = []
        for st in rets:
            L = st.mon["log"]
            one = lambda what: [x for x in L if x[0] == what]
            names = one("shm_open"); sems = one("sem_open"); sizes = one("size"); files = one("open")
            maps = [x for x in one("map") if x[3] & 2] if all(isinstance(x[3], int) for x in one("map")) else None
            if len(names) != 1 or not maps or not files: raise AnalysisBroken("the shared memory of %s is not understood" % title)
            if len(files) != 1 or files[0][1] != Name([("the input file",)]): C.violation("file:%s" % role, "%s does not open the file it was given (%s)" % (title, files), at)
            if names[0][2] != (role == 1): C.violation("creator:%s" % role, "%s %s the shared memory" % (title, "creates" if names[0][2] else "does not create"), at)
            if role == 1 and not sizes: C.violation("unsized:1", "%s creates shared memory and gives it no size" % title, at)
            if role < 3 and len(sems) != 1: C.violation("semaphore:%s" % role, "%s opens %d semaphores" % (title, len(sems)), at)
            if sems and sems[0][2] != (role == 1): C.violation("creator-semaphore:%s" % role, "%s %s the semaphore" % (title, "creates" if sems[0][2] else "does not create"), at)
            if sems and sems[0][2] and sems[0][3] != 0: C.violation("semaphore-start:%s" % role, "the semaphore starts at %s although no bank is ready" % sems[0][3], at)
            if any(x[4] & 1 == 0 for x in maps if isinstance(x[4], int)): C.violation("private:%s" % role, "%s maps the windows privately" % title, at)
            wins = {(x[1], x[2]) for x in maps}
            ways.append((st.mon.get("cond", ()), names[0][1], wins, sizes[-1][1] if sizes else None, sems[0][1] if sems else None))
        for s, n in GRID:
            env = env_of(s, n); _, _, wins, size, _ = pick(ways, s, n)
            ws = sorted((value(o, env), value(l, env)) for l, o in wins); size = value(size, env) if size is not None else None
            for (a, la), (b, lb) in zip(ws, ws[1:]):
                if a + la > b: C.violation("overlap:%s" % role, "%s: with banks of %d bytes and %d banks the windows overlap" % (title, s, n), at); break
            if any(o % 4096 for o, _ in ws): C.violation("aligned:%s" % role, "%s: with banks of %d bytes and %d banks a window does not start at a page" % (title, s, n), at); break
            if size is not None and ws[-1][0] + ws[-1][1] > size: C.violation("beyond:%s" % role, "%s: with banks of %d bytes and %d banks the windows reach to %d, the memory has %d bytes" % (title, s, n, sum(ws[-1]), size), at); break
            if max(l for _, l in ws) < s * n: C.violation("room:%s" % role, "%s: %d banks of %d bytes do not fit in the largest window of %d bytes" % (title, n, s, max(l for _, l in ws)), at); break
            if min(l for _, l in ws) < 8 * n: C.violation("room-table:%s" % role, "%s: the table of %d banks does not fit in %d bytes" % (title, n, min(l for _, l in ws)), at); break
        groups.setdefault(role, []).append((title, ways, at))
        C.obligation("%s: opens the file it is given; windows disjoint, aligned, inside the memory, with room for the banks; only stage 1 creates" % title, len(C.viol) == before, parameters=len(GRID), ways=len(ways))
    first = groups[1][0]
    for role in (2, 3):
        for title, ways, at in groups[role]:
            before = len(C.viol)
            for s, n in GRID if len(ways) + len(first[1]) > 2 else GRID[:1]:
                t, o = pick(ways, s, n), pick(first[1], s, n)
                if t[1] != o[1]: C.violation("name:%s" % role, "%s opens the memory %s, stage 1 creates %s" % (title, t[1], o[1]), at)
                if t[4] is not None and t[4] != o[4]: C.violation("semaphore-name:%s" % role, "%s opens the semaphore %s, stage 1 creates %s" % (title, t[4], o[4]), at)
            if not same(ways, first[1], lambda w: w[2]): C.violation("windows:%s" % role, "%s maps %s, stage 1 maps %s" % (title, show_w(ways[0][2]), show_w(first[1][0][2])), at)
            if ways[0][3] is not None and not same(ways, first[1], lambda w: {(w[3] if w[3] is not None else Tm(0), Tm(0))}): C.violation("size:%s" % role, "%s gives the memory %s bytes, stage 1 %s" % (title, ways[0][3], first[1][0][3]), at)
            C.obligation("%s: same names, windows and size as stage 1" % title, len(C.viol) == before)
    for w in first[1]:
        if w[1] == w[4]: C.violation("one-name", "memory and semaphore have the same name", first[2])
        for nm in (w[1], w[4]):
            if nm is not None and not any("pid" in str(x) for x in nm.p): C.violation("shared-name", "sessions of different processes share the name %s" % nm, first[2])


def show_w(w): return ", ".join("%s at %s" % x for x in sorted(w, key=repr))
def same(a, b, get):
    """the same terms, or the same values at every parameter tried"""
    if len(a) == len(b) == 1 and get(a[0]) == get(b[0]): return True
    for s, n in GRID:
        env = env_of(s, n)
        if {(value(x, env), value(y, env)) for x, y in get(pick(a, s, n))} != {(value(x, env), value(y, env)) for x, y in get(pick(b, s, n))}: return False
    return True


def cpp_session(C):
    """Context::parse with 1 to 3 workers"""
    mod = ir.compile_tu(ir.VERIF + "/tu/context.cpp", inc=[ir.VERIF + "/tu/stub"])
    parse = mod.one(r"^Centaurus::Context<char>::parse\(char const\*, int\)$")
    at = "%s:%s" % (parse.file, parse.line)
    for n in (1, 2, 3):
        def ctor(E, st, f, a, ins):
            role = int(re.search(r"Stage(\d)Runner\(", f.dem).group(1)); kinds = [x.strip() for x in f.dem[f.dem.index("(") + 1:-1].split(",")]
            v = "_ZTVN9Centaurus12Stage%dRunnerE" % role
            if v not in mod.globals: raise AnalysisBroken("no class Stage%dRunner" % role)
            st.wobj(a[0].obj).cells[a[0].off] = (8, Ptr(("g", v), 16))
            d = dict(zip(["this"] + kinds, a))
            log(st, "make", role, a[0].obj, a[1], d.get("unsigned long"), a[1 + kinds.index("int")], a[2 + kinds.index("int")] if role > 1 else atom("pid"), E.loc(ins))
            return ("val", None)
        def note(what):
            def h(E, st, f, a, ins): log(st, what, a[0].obj); return ("val", None)
            return h
        def window(E, st, f, a, ins): return ("val", atom("window"))
        def kill(E, st, f, a, ins): log(st, "delete", a[0].obj); return ("val", None)
        hs = [(r"^Centaurus::Stage\dRunner::Stage\dRunner\(", ctor), (r"^Centaurus::Stage\dRunner::start\(\)$", note("start")), (r"^Centaurus::(BaseRunner|Stage\dRunner)::wait\(\)$", note("wait")),
              (r"^Centaurus::Stage\dRunner::~Stage\dRunner\(\)$", kill), (r"::register_(python_)?listener\(", note("listen")), (r"^Centaurus::BaseRunner::get_input\(\) const$", window), (r"^Centaurus::get_current_pid\(\)$", some("pid")), (r"^getpid$", some("pid"))]
        E = ConcreteEngine(mod, SysDomain(), hs, max_time=200)
        st = State(); st.mon.update(log=(), live={}, n=0, bad=(), failed=(), role=0, faults=False)
        ctx = st.new(4096, "heap"); nm = st.new(16, "file")
        E.start(st, parse, [Ptr(ctx, 0), Ptr(nm, 0), n])
        for kind, s, v in E.run([st]):
            before = len(C.viol); L = s.mon["log"]; made = [x for x in L if x[0] == "make"]
            bad = lambda key, msg, loc=at: C.violation("session:" + key, msg + " (Context::parse, %d workers)" % n, loc)
            if kind != "ret": bad(kind, "the session ends in %s" % kind); continue
            roles = sorted(x[1] for x in made)
            if roles != [1] + [2] * n + [3]: bad("stages", "the session has the stages %s" % roles)
            if made and made[0][1] != 1: bad("order", "stage %d is created before stage 1 has created the shared memory" % made[0][1], made[0][7])
            for x in made:
                if x[3] != Ptr(nm, 0): bad("file", "stage %d is given another file" % x[1], x[7])
                for k, what in ((4, "bank size"), (5, "number of banks"), (6, "process")):
                    if x[k] != made[0][k]: bad(what.replace(" ", "-"), "stage %d has the %s %s, stage %d has %s" % (x[1], what, x[k], made[0][1], made[0][k]), x[7])
            pos = lambda what, o: [i for i, x in enumerate(L) if x[0] == what and x[1] == o]
            allmade = max([i for i, x in enumerate(L) if x[0] == "make"] or [0])
            for x in made:
                s_, w_, d_ = pos("start", x[2]), pos("wait", x[2]), pos("delete", x[2])
                if len(s_) != 1 or len(w_) != 1 or len(d_) != 1: bad("life", "stage %d is started %d times, waited for %d times, destroyed %d times" % (x[1], len(s_), len(w_), len(d_)), x[7]); continue
                if not s_[0] < w_[0] < d_[0]: bad("life-order", "stage %d is not started, waited for and destroyed in this order" % x[1], x[7])
                if x[1] > 1 and not any(i < s_[0] for i in pos("listen", x[2])): bad("listener", "stage %d is started without its callback" % x[1], x[7])
            for x in made:
                if x[1] == 1:
                    others = [pos("delete", y[2])[0] for y in made if y[1] != 1 and pos("delete", y[2])] + [pos("start", y[2])[0] for y in made if y[1] != 1 and pos("start", y[2])]
                    w = [pos("wait", y[2])[0] for y in made if pos("wait", y[2])]; d = pos("delete", x[2])
                    if d and any(i > d[0] for i in [pos("start", y[2])[0] for y in made if pos("start", y[2])]): bad("end", "stage 1 gives back the shared memory before every stage is started", x[7])
            C.obligation("Context::parse with %d workers: one stage 1, %d stages 2, one stage 3 on the same file, bank size, bank count and process; each started, waited for and destroyed once" % (n, n), len(C.viol) == before, stages=len(made))


def main():
    C = report.Check("P25", "bounded", "comparison of the constructors' system calls as terms over the unknown parameters; interpretation of the C++ session; dataflow over the Python session's syntax tree")
    layout(C)
    cpp_session(C)
    python_session(C)
    C.finish("The stages' constructors (three builds) are interpreted; names, sizes, offsets and lengths of the shared windows are terms over bank size, bank count and process and must be the same in all stages, disjoint, aligned, inside the memory and large enough. "
             "Context::parse must create one stage 1 first, then the others, on the same parameters, and start, wait for and destroy each once. In the Python package every stage must be created with the same sizes and the master's process id, and a new stage 1 only after the old one was given up.", min_obl=12,
             assumptions=["terms that are not equal as such are compared and bounded at %d values of bank size and bank count" % len(GRID)])


report.main(main)
