"""Builds LLVM IR from /repo's current sources and loads it for analysis.

Nothing built here is ever executed: clang type-checks and lowers the source,
opt promotes stack slots, irx dumps the module as JSON.
"""
import json, os, subprocess, sys, hashlib, tempfile, shutil, re
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
IRX = os.path.join(VERIF, "build", "irx")
FLAGS = ["-std=c++11", "-funsigned-char", "-DCENTAURUS_BUILD_LINUX", "-fPIC", "-w",
         "-O1", "-Xclang", "-disable-llvm-passes", "-g", "-fno-discard-value-names",
         "-fstandalone-debug"]


class AnalysisBroken(Exception):
    """The analysis lost its subject or met something it cannot decide."""


def ensure_irx():
    if os.path.exists(IRX) and os.path.getmtime(IRX) >= os.path.getmtime(os.path.join(VERIF, "tools/irx/irx.cpp")):
        return
    os.makedirs(os.path.dirname(IRX), exist_ok=True)
    tmp = IRX + ".%d" % os.getpid()
    subprocess.run(["clang++-18", "-O1", "-I/usr/lib/llvm-18/include", "-std=c++17", "-fno-exceptions", "-D_GNU_SOURCE",
                    "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS",
                    os.path.join(VERIF, "tools/irx/irx.cpp"), "-o", tmp, "-L/usr/lib/llvm-18/lib", "-lLLVM-18"], check=True)
    os.rename(tmp, IRX)


class Instr(dict):
    __slots__ = ()


class Func:
    __slots__ = ("name", "dem", "args", "blocks", "file", "line", "ret", "noreturn", "nreg", "_live", "_preds", "_succ", "_loops", "module", "src", "short", "linkage", "_merge", "cls", "art")

    def __init__(self, name, d, module):
        self.name = name; self.dem = d["dem"]; self.args = d["args"]; self.blocks = d.get("blocks")
        self.file = d.get("file0", ""); self.line = d.get("line", 0); self.ret = d["ret"]; self.noreturn = d.get("noreturn")
        self.nreg = d.get("nreg", 0); self.module = module; self.src = d.get("src", ""); self.cls = d.get("cls"); self.art = d.get("art", False)
        self.linkage = d.get("linkage")
        self._live = None; self._preds = None; self._succ = None; self._loops = None; self._merge = None

    @property
    def defined(self):
        return self.blocks is not None

    def succ(self, b):
        if self._succ is None:
            self._succ = []
            for blk in self.blocks:
                t = blk[-1]; o = t["op"]
                if o == "br":
                    s = [x[1] for x in t["ops"] if x[0] == "b"]
                elif o == "switch":
                    s = [c[1] for c in t["cases"]] + [t["def"]]
                elif o == "invoke":
                    s = [t["normal"], t["unwind"]]
                else:
                    s = []
                self._succ.append(s)
        return self._succ[b]

    def preds(self, b):
        if self._preds is None:
            self._preds = [[] for _ in self.blocks]
            for i in range(len(self.blocks)):
                for s in self.succ(i):
                    self._preds[s].append(i)
        return self._preds[b]

    def merge_blocks(self):
        if self._merge is None:
            self._merge = {b for b in range(len(self.blocks)) if len(self.preds(b)) > 1}
        return self._merge

    def live(self):
        """live-in register sets at block entry (before phis: phi operands counted on the edge)"""
        if self._live is None:
            n = len(self.blocks)
            use = []; dfn = []; phiuse = [dict() for _ in range(n)]
            for bi, blk in enumerate(self.blocks):
                u = set(); d = set()
                for ins in blk:
                    if ins["op"] == "phi":
                        for v, pb in ins["in"]:
                            if v[0] == "r":
                                phiuse[bi].setdefault(pb, set()).add(v[1])
                        d.add(ins["id"]); continue
                    for r in uses(ins):
                        if r not in d:
                            u.add(r)
                    if "id" in ins:
                        d.add(ins["id"])
                use.append(u); dfn.append(d)
            livein = [set(use[b]) for b in range(n)]
            changed = True
            while changed:
                changed = False
                for b in range(n - 1, -1, -1):
                    out = set()
                    for s in self.succ(b):
                        out |= livein[s] | phiuse[s].get(b, set())
                    # phi defs of s are in dfn[s], so livein[s] excludes them unless used: remove
                    new = use[b] | (out - dfn[b])
                    if new != livein[b]:
                        livein[b] = new; changed = True
            # registers defined by phis of block b are live at entry (after phis) if used
            self._live = livein
        return self._live

    def live_after(self, bi, ii):
        """registers live after instruction ii of block bi"""
        lv = self.live()
        out = set()
        for s in self.succ(bi):
            out |= lv[s]
            for ins in self.blocks[s]:
                if ins["op"] != "phi":
                    break
                for v, pb in ins["in"]:
                    if pb == bi and v[0] == "r":
                        out.add(v[1])
        blk = self.blocks[bi]
        for k in range(len(blk) - 1, ii, -1):
            ins = blk[k]
            if "id" in ins:
                out.discard(ins["id"])
            if ins["op"] != "phi":
                out.update(uses(ins))
        return out

    def __repr__(self):
        return "<Func %s>" % self.dem


def _opregs(o, acc):
    t = o[0]
    if t == "r":
        acc.append(o[1])
    elif t == "ce":
        for x in o[2]:
            _opregs(x, acc)


def uses(ins):
    acc = []
    op = ins["op"]
    if op in ("call", "invoke", "callbr"):
        if ins["callee"][0] == "g" and ins["callee"][1].startswith("llvm.lifetime"):
            return acc
        for a in ins["args"]:
            _opregs(a, acc)
        _opregs(ins["callee"], acc)
    elif op == "getelementptr":
        _opregs(ins["base"], acc)
        for v in ins["var"]:
            _opregs(v[0], acc)
    elif op == "switch":
        _opregs(ins["v"], acc)
    elif op == "alloca":
        _opregs(ins["count"], acc)
    elif op == "phi":
        for v, _ in ins["in"]:
            _opregs(v, acc)
    else:
        for o in ins.get("ops", ()):
            _opregs(o, acc)
    return acc


class Module:
    def __init__(self, data, label):
        self.label = label
        self.functions = {k: Func(k, v, self) for k, v in data["functions"].items()}
        self.types = data.get("types", {}); self.enums = data.get("enums", {}); self.globals = data["globals"]; self.structs = data["structs"]
        self.bydem = {}
        for f in self.functions.values():
            self.bydem.setdefault(f.dem, f)

    def find(self, pat, defined=True):
        r = re.compile(pat)
        return [f for f in self.functions.values() if (f.defined or not defined) and r.search(f.dem)]

    def one(self, pat):
        fs = self.find(pat)
        if len(fs) != 1:
            raise AnalysisBroken("expected exactly one function matching %r, found %d: %s" % (pat, len(fs), [f.dem for f in fs][:8]))
        return fs[0]


_cache = {}


def compile_tu(src, extra=(), inc=(), sroa=True):
    """src: path of a C++ file (in /repo or a TU of /verif/tu). Returns Module."""
    key = (src, tuple(extra), tuple(inc), sroa)
    if key in _cache:
        return _cache[key]
    ensure_irx()
    td = tempfile.mkdtemp(prefix="irx_")
    try:
        bc = os.path.join(td, "a.bc"); bc2 = os.path.join(td, "b.bc")
        cmd = ["clang++-18"] + FLAGS + list(extra) + ["-I" + i for i in inc] + ["-I" + REPO + "/src/core", "-emit-llvm", "-c", src, "-o", bc]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken("clang cannot compile %s:\n%s" % (src, r.stderr[-3000:]))
        passes = "sroa" if sroa else "verify"
        subprocess.run(["opt-18", "-passes=" + passes, bc, "-o", bc2], check=True)
        out = subprocess.run([IRX, bc2], check=True, capture_output=True).stdout
        m = Module(json.loads(out), src)
        _cache[key] = m
        return m
    finally:
        shutil.rmtree(td, ignore_errors=True)
