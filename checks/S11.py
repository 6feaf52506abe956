import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import *


def run():
    c = Check("S11", [P.SCO + "solver_interface.cpp", P.SCO + "bpmpd_interface.cpp"], spec="bpmpd.cpp")
    c.load()
    c.rule("law", "sizes, positions, data and indices of every table after an operation equal the reference definition, at an arbitrary position of an arbitrary model")
    c.laws("S11_", at_least=40)
    return c.finish()


if __name__ == "__main__":
    main(run)
