import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import *


def run():
    c = Check("Q01", [P.SQP + "expressions.cpp"], spec="sqpexpr.cpp")
    c.load()
    c.rule("law", "every constant, coefficient and value equals its reference definition over the entries of the container")
    c.laws("Q01_", at_least=12)
    return c.finish()


if __name__ == "__main__":
    main(run)
