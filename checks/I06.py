import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import *


def run():
    c = Check("I06", [P.IFO + "core/bounds.cpp", P.IFO + "utils/ifopt_utils.cpp"], spec="ifoptutil.cpp")
    c.load()
    c.rule("law", "every limit and waypoint of the result equals its reference definition, at an arbitrary position")
    c.laws("I06_", at_least=6)
    return c.finish()


if __name__ == "__main__":
    main(run)
