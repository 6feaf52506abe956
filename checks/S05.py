import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import *


def run():
    c = Check("S05", [P.SCO + "expr_ops.cpp", P.SCO + "modeling.cpp", P.SCO + "solver_interface.cpp"], spec="modeling.cpp")
    T.SIZE_ALIAS.update(vars="coeffs", vars1="coeffs", vars2="coeffs")
    c.load()
    c.rule("law", "closest and central feasible points equal the coordinate-wise clamp; the QP variant minimizes the squared distance under the problem's bounds")
    c.laws("S05_", at_least=2)
    c.same_as("law", c.prog.fn("sco::OptProb::getClosestFeasiblePointQP"), "closest_qp", inst="closest_qp", mem=False, calls=True)
    return c.finish()


if __name__ == "__main__":
    main(run)
