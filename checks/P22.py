"""P22: what a session takes from the system it gives back, once and whole."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import ir, report
from session import *


def main():
    C = report.Check("P22", "proof", "typestate of descriptors, mappings, names, semaphores and threads: constructors, start, wait and destructors interpreted with every system call succeeding or failing; sizes as terms over the parameters")
    for title, cls, role, make in owners():
        n = 0; before = len(C.viol)
        S = make(True)
        at = "%s:%s" % (S.dtor.file, S.dtor.line)
        for life, s, kind in lives(S):
            n += 1
            over = life.endswith("destruction") or (life == "construction" and kind == "throw")
            fails = ", ".join("%s fails at %s" % f for f in s.mon["failed"])
            if life == "construction" and kind == "ret" and s.mon["failed"]: continue       # a failure that goes unnoticed: P23
            for rule, msg, loc in s.mon["bad"]: C.violation("%s:%s" % (rule, cls.split("::")[-1]), "%s (%s: %s%s)" % (msg, title, life, "; " + fails if fails else ""), loc)
            if kind not in ("ret", "throw"): C.violation("%s:%s" % (kind, cls.split("::")[-1]), "%s ends in %s (%s)" % (life, kind, title), at)
            if over:
                for x in leftovers(s): C.violation("kept-%s:%s" % (x.split()[0], cls.split("::")[-1]), "after %s%s, a %s is still held (%s)" % (life, " (%s)" % fails if fails else "", x, title), at)
        C.obligation("%s: everything obtained is given back exactly once, with its full size; names by the stage that created them" % title, len(C.viol) == before, lives=n)
    C.finish("The constructor, start, wait and destructor of every stage (three builds) and of the mapped input are interpreted with open, fstat, mmap, shm_open, ftruncate, sem_open and pthread_create succeeding or failing in every combination the code lets through. "
             "At the end of every life (destruction, or a constructor that throws) nothing may be held: no descriptor, mapping, semaphore, thread, and for the first stage no name; unmapping must cover exactly what was mapped; only the creator removes names.", min_obl=8,
             assumptions=["a runner that was started is waited for before it is destroyed", "memory of result chunks is not a system resource and is not tracked"])


report.main(main)
