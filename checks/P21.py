"""P21: stages 2 and 3 hand every rule of the document to the listener, once, with its span and its values."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import multiprocessing as mp
import ir, report, reduce
from ir import AnalysisBroken
from engine import Unsupported, Violation

X = ("-DNDEBUG",)
SRC = ir.VERIF + "/tu/run.cpp"


def one(job):
    stage, swap, counter, layout, absolute, part = job
    try:
        mod = ir.compile_tu(SRC, X)
        D = reduce.explore(mod, stage, swap=swap, counter=counter, layout=layout, absolute=absolute, part=part, limit=700)
        return job, None, None, dict(steps=D.steps, calls=D.calls, banks=D.banks, rets=D.rets, states=D.nstates, layout=D.layout, shapes=sorted(map(str, D.shapes)), where="%s:%s" % (D.body.file, D.body.line), functions=D.nfun)
    except Violation as v:
        return job, (v.rule, v.msg, v.loc, list(v.st.trace_list()) if v.st is not None else []), None, None
    except (AnalysisBroken, Unsupported) as e:
        return job, None, "%s: %s" % (type(e).__name__, e), None


def main():
    C = report.Check("P21", "proof", "abstract interpretation of the worker bodies against a ghost parse stack (step simulation)")
    ir.compile_tu(SRC, X)
    # the two marker lists of the tuple are told apart by the role they play in stage 2
    with mp.Pool(8) as p: res = p.map(one, [(2, s, c, None, False, (0, 1)) for s in (False, True) for c in (True, False)], 1)
    best = [x for x in res if not x[0][1]]; alt = [x for x in res if x[0][1]]
    if not all(x[3] for x in best) and all(x[3] for x in alt): best = alt
    out = list(best); lay = next((x[3]["layout"] for x in best if x[3]), None)
    if lay:
        def stage3(absolute, n):
            with mp.Pool(8) as p: return p.map(one, [(3, False, c, lay, absolute, (i, n)) for c in (True, False) for i in range(n)], 1)
        r = stage3(False, 4)
        # positions counted from the current tag do not fit code that keeps plain indices: count them from the start then
        if not all(x[3] for x in r): r = stage3(True, 8)
        out += r
    states = 0; shapes = {2: set(), 3: set()}
    for job, viol, err, D in out:
        st, _, counter, _, absolute, part = job
        name = "stage %d, %s a reduction counter%s" % (st, "with" if counter else "without", ", part %d of %d" % (part[0] + 1, part[1]) if part[1] > 1 else "")
        if err: raise AnalysisBroken(name + ": " + err)
        if viol:
            rule, msg, loc, trace = viol
            C.obligation(name, False)
            C.violation("%s:stage%d" % (rule, st), "%s (%s)" % (msg, name), loc, trace)
            continue
        shapes[st].update(D["shapes"])
        if not D["calls"] or not D["banks"] or not D["rets"]: raise AnalysisBroken("%s: explored too little (%r)" % (name, D))
        states += D["states"]
        for sh in D["shapes"]: C.obligation("%s: one step from the stack %s" % (name, sh), worker=D["where"])
        C.obligation("%s: every bank handed over and every tuple freed" % name, states=D["states"], checked_stacks=D["steps"], listener_calls=D["calls"])
    if not C.viol and (len(shapes[2]) < 60 or len(shapes[3]) < 40): raise AnalysisBroken("too few stacks were explored: %d, %d" % (len(shapes[2]), len(shapes[3])))
    C.stats.update(states_explored=states, checker_cmd="python3 /verif/checks/P21.py")
    C.finish("The compiled worker bodies of stage 2 and stage 3 are interpreted with one bank of symbolic markers. Before each marker (stage 2) or tag (stage 3) the four lists must encode the specification's parse stack; "
             "the stack is then replaced by every shape one step can depend on, so that one step from each covers documents of any length and nesting.", min_obl=60)


report.main(main)
