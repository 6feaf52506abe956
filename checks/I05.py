import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import *


def run():
    c = Check("I05", [P.IFO + "core/bounds.cpp", P.IFO + "core/component.cpp", P.IFO + "core/constraint_set.cpp", P.IFO + "core/cost_term.cpp", P.IFO + "utils/ifopt_utils.cpp", P.IFO + "costs/squared_cost.cpp", P.IFO + "costs/absolute_cost.cpp"], spec="costs.cpp")
    c.load()
    own = lambda o: ("fld", o, "rows_")
    R.HINTS.update({"rows_": range(0, 4), "n_constraints_": range(0, 4)})
    R.SIZE_OF.update({"getValues": own, "getCoefficients": own, "getBounds": own, ("rows", "getJacobian"): own})
    c.rule("law", "cost = sum of weighted squared or absolute bound errors, Jacobian = its derivative, weights non-negative, one row")
    c.laws("I05_", at_least=20)
    return c.finish()


if __name__ == "__main__":
    main(run)
