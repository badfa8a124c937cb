"""P19: semaphore accounting and the end of a session."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import report, bankrun
RULES = {"sem-missing-post", "sem-spurious-post", "sem-double-wait", "sem-no-wait", "done-owned", "done-early", "done-before-parse", "done-missing", "exit-early"}


def main():
    C = report.Check("P19", "proof", "pairing and must-happen analysis over every path of the worker bodies")
    bankrun.run(C, RULES, (1, 2, 3), True)
    C.finish("Every worker body is explored to a fixpoint; posts owed, waits consumed and the end-of-session marks on one arbitrary bank are tracked on every path.", min_obl=60)


report.main(main)
