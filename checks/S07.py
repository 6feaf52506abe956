import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import *
import engine


def variables(f):
    """a Jacobian has a column for every variable of the function it belongs to"""
    return ("size", ("fld", f[1][1], "vars_")) if f[0] == "drf" and f[1][0] == "fld" and f[1][2] == "dfdx_" else None


def columns(c):
    """so does one of finite differences, at the point given (decided by S08)"""
    x = c[3]
    return len(x[1]) if x[0] == "arr" else ("size", x)


def run():
    c = Check("S07", [P.SCO + "expr_ops.cpp", P.SCO + "modeling.cpp", P.SCO + "modeling_utils.cpp", P.SCO + "num_diff.cpp", P.SCO + "solver_interface.cpp"], spec="modutil.cpp")
    T.SIZE_ALIAS.update(vars="coeffs", vars1="coeffs", vars2="coeffs")
    engine.OUTS.update({"sco::calcGradAndDiagHess": (3, 4, 5), "sco::calcGradHess": (3, 4, 5)})
    c.load()
    R.SIZE_OF[("cols", "operator()")] = variables
    R.SIZE_OF[("cols", "calcForwardNumJac")] = columns
    R.WHOLE.add("calcForwardNumJac")
    c.rule("law", "values and convex approximations of function-based costs and constraints equal their reference definitions at every assignment")
    c.laws("S07_", at_least=1, opaque=("sco::calcGradAndDiagHess", "sco::calcGradHess", "sco::calcForwardNumJac"))
    return c.finish()


if __name__ == "__main__":
    main(run)
