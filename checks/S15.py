import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import *


def run():
    c = Check("S15", [P.SCO + "solver_utils.cpp", P.SCO + "solver_interface.cpp"], spec="solverutil.cpp")
    c.load()
    c.rule("law", "every converted entry equals its reference definition over the terms of the expression")
    c.laws("S15_", at_least=12)
    return c.finish()


if __name__ == "__main__":
    main(run)
