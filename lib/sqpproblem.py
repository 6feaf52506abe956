"""the two quadratic-program builders against their reference definitions"""
import copy
import program as P
from check import Check
import rint as R
import ifoptqp, trajoptqp

IFO = [P.IFO + f for f in ("core/bounds.cpp", "core/component.cpp", "utils/ifopt_utils.cpp")]
PARTS = (("ifopt_qp_problem.cpp", ("ifopt_qp_problem.cpp",), "ifoptqp.cpp", ifoptqp),
         ("trajopt_qp_problem.cpp", ("trajopt_qp_problem.cpp", "expressions.cpp"), "qp.cpp", trajoptqp))


def laws(c, prefix, text, least, uninterpreted=(), **k):
    """add the laws of both problems to check c"""
    c.rule("law", text)
    for (name, units, spec, sizes), n in zip(PARTS, least):
        d = Check(c.pid, [P.SQP + u for u in units] + IFO, spec=spec)
        saved = [copy.copy(x) for x in (R.HINTS, R.SIZE_BY, R.SIZE_OF, R.UNINTERPRETED, R.ORDERED)]
        d.load()
        sizes.sizes()
        R.ORDERED.update({"upper_": "lower_"})      # of a Bounds
        R.UNINTERPRETED.update(uninterpreted)
        d.rule("law", text)
        d.laws(prefix, at_least=n, normal_only=True, **k)
        for x, old in zip((R.HINTS, R.SIZE_BY, R.SIZE_OF, R.UNINTERPRETED, R.ORDERED), saved):
            x.clear()
            x.update(old)
        d.obl = [o[:2] + ("%s: %s" % (name, o[2]), o[3], o[4], "%s: %s" % (name, o[5])) for o in d.obl]
        c.merge(d)
