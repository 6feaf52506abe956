import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import *


def run():
    c = Check("S08", [P.SCO + "num_diff.cpp", P.IFO + "utils/numeric_differentiation.cpp"], spec="numdiff.cpp")
    c.load()
    c.rule("law", "every difference quotient equals its reference definition: perturbed points, step, divisor, row and column, restored point")
    c.laws("S08_", at_least=12)
    return c.finish()


if __name__ == "__main__":
    main(run)
