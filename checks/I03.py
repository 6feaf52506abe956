import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import *


def run():
    c = Check("I03", [P.IFO + "core/bounds.cpp", P.IFO + "core/component.cpp", P.IFO + "core/constraint_set.cpp", P.IFO + "core/cost_term.cpp", P.IFO + "core/composite.cpp", P.IFO + "core/problem.cpp"], spec="problem.cpp")
    c.load()
    # what the interface promises about the results of a component's virtual functions
    own = lambda o: ("fld", o, "rows_")
    R.HINTS.update({"rows_": range(0, 4), "num_vars_": range(1, 5)})
    R.SIZE_OF.update({"getValues": own, "getCoefficients": own, "getBounds": own, ("rows", "getJacobian"): own, ("cols", "getJacobian"): lambda o: ("fld", o[1][1][1] if o[:1] == ("drf",) and o[1][0] == "elm" and o[1][1][0] == "fld" else ("arg", 0), "num_vars_")})
    c.rule("law", "rows, values, coefficients, bounds and Jacobian rows of a composite are those of its components in insertion order; the scalar cost is the sum of the cost terms")
    c.laws("I03_", at_least=12)
    return c.finish()


if __name__ == "__main__":
    main(run)
