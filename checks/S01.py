import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import *


def run():
    c = Check("S01", [P.SCO + "expr_ops.cpp", P.SCO + "expr_vec_ops.cpp", P.SCO + "solver_interface.cpp"], spec="expr.cpp")
    T.SIZE_ALIAS.update(vars="coeffs", vars1="coeffs", vars2="coeffs")
    c.load()
    c.rule("law", "the value of the expression built by the operation equals the operation on the values, as polynomials over the "
                  "coefficients and the assignment (value numbering of both sides, all sizes)")
    c.laws("", at_least=40)
    return c.finish()


if __name__ == "__main__":
    main(run)
