import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import *
import sqpproblem


def run():
    c = Check("Q08", [])
    sqpproblem.laws(c, "Q08_", "exact and convexified costs and violations are the weighted penalties of the same errors", (8, 10), uninterpreted=("hv",))
    return c.finish()


if __name__ == "__main__":
    main(run)
