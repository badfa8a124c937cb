"""Character classes made from characters: every constructor interpreted on concrete characters, the ranges in memory compared with the
characters given."""
import itertools, re
from ir import AnalysisBroken
from autom import *

WIDE = [1, 9, 65, 127, 128, 255, 256, 0x3042, 0xfffe, 0x10ffff]


class Make(Plain):
    def __init__(self, C, mod, T):
        Plain.__init__(self, mod, T); self.C = C; self.n = 0; self.T = T
        self.bits = 8 if "char" == T[-4:] and T != "wchar_t" else 32

    def fns(self, pat):
        r = re.compile(r"^(Centaurus::CharClass<%s> )?Centaurus::CharClass<%s>::%s$" % (re.escape(self.T), re.escape(self.T), pat))
        return [f for f in self.mod.functions.values() if f.defined and r.match(f.dem)]

    def ranges(self, st, p):
        v = self.vec(st, Ptr(p.obj, p.off + self.o_rv))
        if not v: return []
        out = []
        for i in range(v[1] // self.s_rng):
            x = tuple(st.mem[v[0].obj].cells[v[0].off + i * self.s_rng + o][1] for o, w in self.r)
            if not all(isinstance(y, int) for y in x): raise AnalysisBroken("a range in an unknown state")
            out.append(tuple(y % 2**self.bits for y in x))
        return out

    def call(self, f, args, want, what, rule):
        """args(st, object) -> argument list; want: wanted ranges"""
        self.n += 1
        E = ConcreteEngine(self.mod, Deep(), max_time=60)
        st = State(); st.mon["facts"] = {}; st.mon["cur"] = 0
        o = st.new(self.s_cc, "heap"); E.start(st, f, args(st, Ptr(o, 0)))
        for k, s, v in E.run([st]):
            if k != "ret": self.C.violation(rule, "making the class of %s ends in %s [%s]" % (what, k, self.T), "%s:%s" % (f.file, f.line)); continue
            got = self.ranges(s, Ptr(o, 0))
            if got != want and not (callable(want) and want(got)):
                self.C.violation(rule, "the class of %s holds the ranges %s [%s]" % (what, ", ".join("[%d, %d)" % x for x in got) or "(none)", self.T), "%s:%s" % (f.file, f.line))


def merged(chars):
    out = []
    for c in sorted(set(chars)):
        if out and out[-1][1] == c: out[-1] = (out[-1][0], c + 1)
        else: out.append((c, c + 1))
    return out


def single(C, mod, T, rule):
    """a character, and any character"""
    m = Make(C, mod, T)
    for f in m.fns(r"CharClass\((wchar_t|%s)\)" % re.escape(T)):
        for c in (range(1, 255) if m.bits == 8 else WIDE): m.call(f, lambda st, o: [o, c], [(c, c + 1)], "character %d" % c, rule)
    top = 2**8 - 1 if m.bits == 8 else 2**31 - 1
    for f in m.fns(r"make_star\(\)"): m.call(f, lambda st, o: [o], lambda g: len(g) == 1 and g[0][0] <= 1 and g[0][1] >= top - (T == "char" and 0), "all characters", rule)
    return m.n


def lists(C, mod, T, rule):
    m = Make(C, mod, T)
    for f in m.fns(r"CharClass\(wchar_t, wchar_t\)"):
        for a, b in [(1, 2), (9, 11), (97, 123), (1, 255), (200, 254)]: m.call(f, lambda st, o: [o, a, b], [(a, b)], "%d to %d" % (a, b - 1), rule)
    for f in m.fns(r"CharClass\(Centaurus::Range<%s> const&\)" % re.escape(T)):
        for a, b in [(1, 2), (97, 123), (128, 255)]:
            def args(st, o):
                r = st.new(m.s_rng, "heap"); m.fill_rest(st, r, 0, m.rng, {x for x, _ in m.r})
                for (x, w), y in zip(m.r, (a, b)): st.mem[r].cells[x] = (w, y)
                return [o, Ptr(r, 0)]
            m.call(f, args, [(a, b)], "the range %d to %d" % (a, b - 1), rule)
    for f in m.fns(r"CharClass\(std::initializer_list<wchar_t> const&\)"):
        for cs in list(itertools.product((9, 10, 11, 32), repeat=3)) + [(32, 9, 13, 10), (), (65,)]:
            def args(st, o):
                l = st.new(16, "heap"); d = st.new(max(4 * len(cs), 4), "heap")
                for i, c in enumerate(cs): st.mem[d].cells[4 * i] = (4, c)
                st.mem[l].cells[0] = (8, Ptr(d, 0)); st.mem[l].cells[8] = (8, len(cs))
                return [o, Ptr(l, 0)]
            m.call(f, args, merged(cs), "the characters %s" % ", ".join(map(str, cs)), rule)
    return m.n
