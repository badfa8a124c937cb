"""P18: banks are numbered and taken in input order."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import report, bankrun
RULES = {"number-late", "number-wrong", "number-unowned", "number-order"}


def main():
    C = report.Check("P18", "proof", "typestate with a symbolic hand-over count: abstract interpretation of the worker bodies")
    bankrun.run(C, RULES, (1, 2, 3), False)
    C.finish("Every worker body is explored to a fixpoint; the number field of one arbitrary bank is tracked relative to the count of banks handed over so far.", min_obl=60)


report.main(main)
