"""what the nonlinear problem behind IfoptQPProblem promises about the sizes of what it returns"""
import rint as R


def problem(o):
    """the IfoptQPProblem whose nonlinear problem the object is"""
    while o[0] != "fld" or o[2] != "nlp_":
        o = o[2] if o[0] == "hv" else o[1]
    return o[1]


def number(o, method, field):
    if any(x[0] == "hv" for x in chain(o)):
        return ("call", "trajopt_ifopt::Problem::" + method, o)     # the problem after its variables were set by setup()
    return ("fld", problem(o), field)


def chain(o):
    while isinstance(o, tuple) and len(o) > 1:
        yield o
        o = o[2] if o[0] == "hv" else o[1]


def nvars(o):
    return number(o, "getNumberOfOptimizationVariables", "num_nlp_vars_")


def ncnts(o):
    return number(o, "getNumberOfConstraints", "num_nlp_cnts_")


def rows(o):
    """the rows of a term"""
    if o[0] == "call" and o[1].split("::")[-1] == "getConstraints":
        return ncnts(o[2])
    return ("fld", o, "rows_")


def all_vars(o):
    """the terms of a problem depend on all of its variables"""
    return ("fld", o[1][1][1], "num_nlp_vars_")


def sizes():
    R.HINTS.update({"num_nlp_vars_": range(1, 4), "num_nlp_cnts_": range(0, 4)})
    R.SIZE_OF.update({"getVariableValues": nvars, "getBoundsOnOptimizationVariables": nvars, "getBoundsOnConstraints": ncnts,
                      ("rows", "getJacobianOfConstraints"): ncnts, ("cols", "getJacobianOfConstraints"): nvars, "evaluateConstraints": ncnts,
                      "getValues": rows, "getCoefficients": rows, "getBounds": rows, ("rows", "getJacobian"): rows, ("cols", "getJacobian"): all_vars})
