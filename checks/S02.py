import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import *


def run():
    c = Check("S02", [P.SCO + "expr_ops.cpp", P.SCO + "modeling.cpp", P.SCO + "solver_interface.cpp"], spec="modeling.cpp")
    T.SIZE_ALIAS.update(vars="coeffs", vars1="coeffs", vars2="coeffs")
    c.load()
    c.rule("law", "objective, equality rows and inequality rows after adding a term equal the previous ones plus the slack encoding of the penalty "
                  "(arbitrary row weights, assignment, list sizes); rows are posted with their sense")
    c.laws("S02_", at_least=20)
    return c.finish()


if __name__ == "__main__":
    main(run)
