import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import *


def run():
    c = Check("S13", [P.SCO + "solver_interface.cpp", P.SCO + "bpmpd_interface.cpp"], spec="bpmpd.cpp")
    c.load()
    c.rule("law", "the objective kept after any setting, and after two in a row, is the one set last, in all its parts")
    c.laws("S13_", at_least=3)
    return c.finish()


if __name__ == "__main__":
    main(run)
