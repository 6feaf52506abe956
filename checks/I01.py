import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import *


def run():
    c = Check("I01", [P.IFO + "core/bounds.cpp", P.IFO + "core/component.cpp", P.IFO + "core/constraint_set.cpp", P.IFO + "variable_sets/var.cpp"] +
              [P.IFO + "constraints/joint_%s_constraint.cpp" % x for x in ("position", "velocity", "acceleration", "jerk")], spec="joint.cpp")
    c.load()
    R.HINTS.update({"index_": range(9), "rows_": range(10, 13)})
    c.rule("law", "values, Jacobian entries, sizes, targets and coefficients equal the finite-difference stencil of consecutive waypoints")
    c.laws("I01_", at_least=50)
    return c.finish()


if __name__ == "__main__":
    main(run)
