import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import *
import sqpproblem


def run():
    c = Check("Q02", [])
    sqpproblem.laws(c, "Q02_", "every row, slack column, bound and weight of the quadratic program is the one its term requires", (16, 18))
    return c.finish()


if __name__ == "__main__":
    main(run)
