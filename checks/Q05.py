import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import *
import sqpsolver


def run():
    return sqpsolver.check("Q05").finish()


if __name__ == "__main__":
    main(run)
