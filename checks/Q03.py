import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import *
import sqpproblem


def run():
    c = Check("Q03", [])
    sqpproblem.laws(c, "Q03_", "after setup() the tables are those of the registered terms, whatever they were before", (10, 35), uninterpreted=("hv",))
    return c.finish()


if __name__ == "__main__":
    main(run)
