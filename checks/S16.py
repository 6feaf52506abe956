import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import *


def run():
    c = Check("S16", [P.SCO + "solver_interface.cpp", P.SCO + "bpmpd_interface.cpp"], spec="bpmpd.cpp")
    c.load()
    T.SIZE_ALIAS.update(vars="coeffs", vars1="coeffs", vars2="coeffs")
    c.model("bpmpd_io::ser", lambda f: "bpmpd_input" in f["params"][1]["t"], "model_send")
    c.model("bpmpd_io::ser", lambda f: "bpmpd_output" in f["params"][1]["t"], "model_receive")
    c.rule("law", "the outcome reported for every return code of the solver equals the reference table")
    c.laws("S16_", at_least=2)
    return c.finish()


if __name__ == "__main__":
    main(run)
