"""How the Python package sets up a session: arguments of the stages, the process id handed on, one session at a time."""
import ast, os, re
from ir import AnalysisBroken
import ir


class Cls:
    def __init__(self, node, table): self.node = node; self.name = node.name; self.table = table; self.fns = {n.name: n for n in node.body if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))}
    def bases(self): return [self.table[b.id] for b in self.node.bases if isinstance(b, ast.Name) and b.id in self.table]
    def chain(self):
        out = [self]
        for b in self.bases(): out += [c for c in b.chain() if c not in out]
        return out
    def method(self, n):
        for c in self.chain():
            if n in c.fns: return c.fns[n]


def resolve(e, fn):
    """local names that are assigned once are replaced by what they stand for"""
    env = {}; count = {}
    def bind(t, v):
        if isinstance(t, ast.Name): env[t.id] = v; count[t.id] = count.get(t.id, 0) + 1
        elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(v, (ast.Tuple, ast.List)) and len(t.elts) == len(v.elts):
            for a, b in zip(t.elts, v.elts): bind(a, b)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for a in t.elts: bind(a, None)
    for s in ast.walk(fn):
        if isinstance(s, ast.Assign):
            for t in s.targets: bind(t, s.value)
        elif isinstance(s, ast.AnnAssign) and s.value is not None: bind(s.target, s.value)
        elif isinstance(s, (ast.AugAssign, ast.For)): bind(s.target, None); bind(s.target, None)
        elif isinstance(s, ast.withitem) and s.optional_vars is not None: bind(s.optional_vars, None)
        elif isinstance(s, ast.NamedExpr): bind(s.target, s.value)
    class R(ast.NodeTransformer):
        def visit_Name(self, n):
            return self.visit(ast.parse(ast.unparse(env[n.id]), mode="eval").body) if count.get(n.id) == 1 and env[n.id] is not None and n.id not in {a.arg for a in fn.args.args} else n
    return ast.unparse(R().visit(ast.parse(ast.unparse(e), mode="eval").body))


def literal(x, y):
    """both are arithmetic over attributes of the same object"""
    def ok(e): return all(isinstance(n, (ast.Expression, ast.BinOp, ast.operator, ast.Constant, ast.Attribute, ast.expr_context)) or isinstance(n, ast.Name) and n.id == "self" for n in ast.walk(e))
    return ok(ast.parse(x, mode="eval")) and ok(ast.parse(y, mode="eval"))


def is_self(e, a=None): return isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == "self" and (a is None or e.attr == a)


def held(cls, fn, attr, state, at, found, depth=0):
    """what self.<attr> may be (subset of none, runner) on the way through fn; at: the creating call"""
    def ev(e, st):
        for c in ast.walk(e):
            if c is at: found.append(set(st))
            if isinstance(c, ast.Call) and is_self(c.func) and depth < 4:
                m = cls.method(c.func.attr)
                if m: st = run(m.body, st, m)
        return st
    def test(t, st):
        """(when true, when false)"""
        if is_self(t, attr): return st & {"runner"}, st & {"none"}
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not): a, b = test(t.operand, st); return b, a
        if isinstance(t, ast.Compare) and is_self(t.left, attr) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
            if isinstance(t.ops[0], (ast.Is, ast.Eq)): return st & {"none"}, st & {"runner"}
            if isinstance(t.ops[0], (ast.IsNot, ast.NotEq)): return st & {"runner"}, st & {"none"}
        return st, st
    def run(body, st, f):
        for s in body:
            if not st: return st
            if isinstance(s, ast.If):
                st = ev(s.test, st); a, b = test(s.test, st); st = run(s.body, a, f) | run(s.orelse, b, f)
            elif isinstance(s, (ast.For, ast.While, ast.With)): st = st | run(s.body, st, f) if not isinstance(s, ast.With) else run(s.body, st, f)
            elif isinstance(s, ast.Try):
                st = run(s.body, st, f)
                st = run(s.finalbody, st, f)
            elif isinstance(s, ast.Assign):
                st = ev(s.value, st)
                if any(is_self(t, attr) for t in s.targets): st = {"none"} if isinstance(s.value, ast.Constant) and s.value.value is None else {"runner"}
            elif isinstance(s, ast.Delete) and any(is_self(t, attr) for t in s.targets): st = {"none"}
            elif isinstance(s, (ast.Return, ast.Raise)):
                if getattr(s, "value", None) is not None: st = ev(s.value, st)
                if f is fn: return set()
                return st
            else:
                for e in ast.iter_child_nodes(s):
                    if isinstance(e, ast.expr): st = ev(e, st)
        return st
    run(fn.body, set(state), fn)


def python_session(C):
    d = os.path.join(ir.REPO, "src/python/centaurus")
    table = {}; where = {}
    for n in sorted(os.listdir(d)):
        if n.endswith(".py"):
            t = ast.parse(open(os.path.join(d, n), encoding="utf-8-sig").read())
            for c in t.body:
                if isinstance(c, ast.ClassDef) and not re.match(r"Stage\dRunner$", c.name): table[c.name] = Cls(c, table); where[c.name] = os.path.join(d, n)
    sites = []
    for c in table.values():
        for f in c.fns.values():
            for e in ast.walk(f):
                if isinstance(e, ast.Call) and isinstance(e.func, (ast.Name, ast.Attribute)):
                    m = re.match(r"Stage(\d)Runner$", e.func.id if isinstance(e.func, ast.Name) else e.func.attr)
                    if m: sites.append((int(m.group(1)), c, f, e))
    if {s[0] for s in sites} != {1, 2, 3}: raise AnalysisBroken("the Python session is not understood: stages %s are created" % sorted({s[0] for s in sites}))
    before = len(C.viol); ref = None
    order = {1: ("filename", "parser", "bank_size", "bank_num"), 2: ("filename", "bank_size", "bank_num", "master_pid"), 3: ("filename", "bank_size", "bank_num", "master_pid")}
    for role, c, f, e in sorted(sites, key=lambda s: s[0]):
        a = dict(zip(order[role], e.args)); a.update({k.arg: k.value for k in e.keywords if k.arg})
        at = "%s:%d" % (where[c.name], e.lineno)
        if any(isinstance(x, ast.Starred) for x in e.args) or "bank_size" not in a or "bank_num" not in a: raise AnalysisBroken("the arguments of stage %d are not understood" % role)
        got = (resolve(a["bank_size"], f), resolve(a["bank_num"], f))
        if ref is None: ref = got
        for x, y, what in zip(got, ref, ("bank size", "number of banks")):
            if x != y and not all(re.match(r"[\w.]+$", v) and (v.startswith("self.") or v.isdigit()) for v in (x, y)) and not literal(x, y): raise AnalysisBroken("the %s given to stage %d is not understood: %s" % (what, role, x))
            if x != y: C.violation("python:%s:%d" % (what.replace(" ", "-"), role), "stage %d is created with the %s %s, stage 1 with %s" % (role, what, x, y), at)
        if role > 1:
            p = ast.parse(resolve(a["master_pid"], f), mode="eval").body if "master_pid" in a else None
            src = []
            worker = set(); todo = [k.value.attr for x in c.chain() for g in x.fns.values() for q in ast.walk(g) if isinstance(q, ast.Call) for k in q.keywords if k.arg == "target" and is_self(k.value)]
            while todo:                                                     # what runs in the worker process
                m = todo.pop()
                if m in worker: continue
                worker.add(m)
                g = c.method(m)
                if g: todo += [q.func.attr for q in ast.walk(g) if isinstance(q, ast.Call) and is_self(q.func)]
            if is_self(p):
                for x in c.chain():
                    for g in x.fns.values():
                        for s in ast.walk(g):
                            if isinstance(s, ast.Assign) and any(is_self(t, p.attr) for t in s.targets): src.append((g.name, resolve(s.value, g)))
            elif p is not None: src.append((f.name, ast.unparse(p)))
            if not src or any(v not in ("os.getpid()", "getpid()") and not v.startswith("self.context.") for _, v in src): raise AnalysisBroken("the process id given to stage %d is not understood" % role)
            for g, v in src:
                if v in ("os.getpid()", "getpid()") and g in worker: C.violation("python:process:%d" % role, "stage %d is given the process id of the worker, not of the master that runs stage 1" % role, at)
    C.obligation("Python session: every stage with the same bank size, bank count and the master's process id", len(C.viol) == before, creations=len(sites))
    before = len(C.viol)
    for role, c, f, e in sites:
        if role != 1: continue
        at = "%s:%d" % (where[c.name], e.lineno)
        names = set(); attr = None
        for _ in range(3):                                                  # the runner may pass through local names
            for s in ast.walk(f):
                if isinstance(s, ast.Assign) and (s.value is e or isinstance(s.value, ast.Name) and s.value.id in names):
                    for t in s.targets:
                        if isinstance(t, ast.Name): names.add(t.id)
                        elif is_self(t): attr = t.attr
        if attr is None: continue
        found = []
        held(c, f, attr, {"none", "runner"}, e, found)
        if not found: raise AnalysisBroken("the creation of stage 1 is not reached")
        if any("runner" in x for x in found): C.violation("python:second-session", "a new stage 1 is created while the previous one still holds the names of the shared memory and the semaphore", at)
    C.obligation("Python session: the previous stage 1 is given up before the next one is created", len(C.viol) == before)
