import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import *


def run():
    c = Check("S03", [P.SCO + "expr_ops.cpp", P.SCO + "modeling.cpp", P.SCO + "solver_interface.cpp"], spec="modeling.cpp")
    T.SIZE_ALIAS.update(vars="coeffs", vars1="coeffs", vars2="coeffs")
    c.load()
    c.rule("law", "every variable a term adds to the model is recorded for removal, every row posted is recorded, removal and destruction take out exactly what was recorded, once")
    c.laws("S03_", at_least=30)
    p = c.prog
    c.same_as("law", p.fn("sco::ConvexObjective::~ConvexObjective"), "destroyed", inst="destroy_objective", ret=False, mem=False, calls=True, order="multiset")
    c.same_as("law", p.fn("sco::ConvexConstraints::~ConvexConstraints"), "destroyed_constraints", inst="destroy_constraints", ret=False, mem=False, calls=True, order="multiset")
    return c.finish()


if __name__ == "__main__":
    main(run)
