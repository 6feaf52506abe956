import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import *


def run():
    c = Check("I02", [P.IFO + "core/bounds.cpp", P.IFO + "utils/ifopt_utils.cpp"], spec="bounds.cpp")
    c.load()
    c.rule("law", "limits, type, signed error, violation and closest point equal those of the closed interval")
    c.laws("I02_", at_least=12)
    return c.finish()


if __name__ == "__main__":
    main(run)
