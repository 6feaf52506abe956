"""what the terms behind TrajOptQPProblem promise about the sizes of what they return"""
import rint as R


def entry(o):
    """the sizes of what a term returns are those its table entry says"""
    base, i = o[1][1][1], o[1][2]
    return ("fld", ("elm", ("fld", ("fld", base, "cvp"), "constraint_term_infos"), i), "rows")


TERMS = ("objective_terms", "penalty_constraints", "merit_constraints")


def own(o):
    if o[0] == "drf" and o[1][0] == "elm":
        if o[1][1][0] == "fld" and o[1][1][2] in TERMS:
            return ("fld", o, "rows_")
        return entry(o)
    return ("fld", ("fld", o[1][1], "cvp"), "n_nlp_vars")       # the variables


def cols(o):
    return ("fld", ("fld", o[1][1][1], "cvp"), "n_nlp_vars")


def sizes():
    R.HINTS.update({"rows": range(0, 3), "n_nlp_vars": range(1, 4), "rows_": range(0, 3), "type": range(0, 4)})
    R.SIZE_BY.update({"bounds": "rows", "coeffs": "rows"})
    R.SIZE_OF.update({"getValues": own, "getBounds": own, "getCoefficients": own, ("rows", "getJacobian"): own, ("cols", "getJacobian"): cols})
