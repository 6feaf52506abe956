import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import *
import sqpproblem
import sqpsolver


def run():
    c = sqpsolver.check("Q07")
    sqpproblem.laws(c, "Q07_", "the bounds of a variable in the quadratic program are the box around its value, cut to its own limits", (10, 10))
    return c.finish()


if __name__ == "__main__":
    main(run)
