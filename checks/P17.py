"""P17: the life cycle of a bank and the exclusive access to its contents."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import report, bankrun
RULES = {"data-unowned", "data-range", "table-range", "table-raw", "order", "double-acquire", "no-reset", "bad-acquire", "bad-publish", "publish-unowned", "publish-unreduced", "bad-state", "exit-holding", "feed-result"}


def main():
    C = report.Check("P17", "proof", "typestate of an arbitrary bank: abstract interpretation of the three worker bodies over the bank table")
    bankrun.run(C, RULES, (1, 2, 3), True)
    C.finish("The body of every worker thread is explored to a fixpoint with one arbitrary bank of a table of any length tracked exactly and the other banks and the other threads left free to behave as the protocol allows.", min_obl=60)


report.main(main)
