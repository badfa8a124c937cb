"""P23: what cannot be opened, sized, mapped or started is reported and not used."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import ir, report
from session import *
from opened import Opened


def main():
    C = report.Check("P23", "proof", "interpretation of constructors and start with every system call failing in turn; dataflow over the state of file streams")
    for title, cls, role, make in owners():
        S = make(True); n = 0; before = len(C.viol); names = set()
        for life, s, kind in lives(S):
            if not s.mon["failed"]: continue
            n += 1; names |= {x for x, _ in s.mon["failed"]}
            step = "the constructor" if life == "construction" else "start()" if life == "construction, start" else None
            if step is None: continue
            what, loc = s.mon["failed"][0]
            if kind == "ret": C.violation("unnoticed-%s:%s" % (what, cls.split("::")[-1]), "%s of %s returns normally although %s failed (%s)" % (step, cls.split("::")[-1], what, title), loc)
            elif kind != "throw": C.violation("%s-%s:%s" % (kind, what, cls.split("::")[-1]), "%s of %s ends in %s after %s failed (%s)" % (step, cls.split("::")[-1], kind, what, title), loc)
        C.obligation("%s: no failed call goes unnoticed" % title, len(C.viol) == before, failing_paths=n, calls=sorted(names))
        if not n: raise AnalysisBroken("no call of %s can fail" % title)
    mod = ir.compile_tu(ir.VERIF + "/tu/core.cpp")
    O = Opened(mod)
    n = O.run()
    for (fn, loc), s in O.bad.items():
        C.violation("unread:%s" % re.sub("<.*>", "", fn), "%s reads from a file stream %s" % (fn, "that could not be opened" if s == "failed" else "without asking whether the file could be opened"), loc)
    C.obligation("file streams are asked whether the file could be opened before they are read", not O.bad, functions=n, streams=O.sites)
    if not O.sites: raise AnalysisBroken("no file stream is opened anywhere")
    C.finish("Constructors and start() of the stages (three builds) and of the mapped input are interpreted with open, fstat, mmap, shm_open, ftruncate, sem_open and pthread_create failing: each must end in an exception, never return. "
             "In every function that opens a file stream by name, each read must be reached only over a branch on which the stream was found open; helpers are followed.", min_obl=9)


report.main(main)
