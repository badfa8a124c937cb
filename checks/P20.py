"""P20: the transfer listener follows the banks."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import report, bankrun
RULES = {"xfer-acquire", "xfer-release"}


def main():
    C = report.Check("P20", "proof", "event-order analysis over every path of the worker bodies")
    bankrun.run(C, RULES, (2, 3), False)
    C.finish("Stage 2 and stage 3 worker bodies are explored to a fixpoint with a registered transfer listener; every call of it is compared with the bank held and its number.", min_obl=40)


report.main(main)
