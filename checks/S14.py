import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import *

UNIT = P.SCO + "solver_interface.cpp"


def run():
    c = Check("S14", [UNIT], spec="bpmpd.cpp")
    c.load()
    c.rule("law", "names, values, parsed types and the constructed back end correspond, whatever back ends are compiled in; anything else is rejected")
    c.laws("S14_", at_least=28, opts={"S14_make_calls": {"calls": lambda ev: "create" in (ev.name or "")}})
    # the other build configurations: no back end, and each one alone
    c.load({UNIT: []})
    c.laws("S14none_", at_least=3)
    for name in ("bpmpd", "osqp", "qpoases", "gurobi"):
        c.load({UNIT: ["-DHAVE_%s=ON" % name.upper()]})
        c.laws("S14%s_" % name, at_least=4)
    return c.finish()


if __name__ == "__main__":
    main(run)
