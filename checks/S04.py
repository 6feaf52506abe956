import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import *


def run():
    c = Check("S04", [P.SCO + "expr_ops.cpp", P.SCO + "modeling.cpp", P.SCO + "solver_interface.cpp"], spec="modeling.cpp")
    T.SIZE_ALIAS.update(vars="coeffs", vars1="coeffs", vars2="coeffs")
    c.load()
    c.rule("law", "tables, setters, getters and partitions of the optimization problem equal their reference definitions")
    c.laws("S04_", at_least=30)
    return c.finish()


if __name__ == "__main__":
    main(run)
