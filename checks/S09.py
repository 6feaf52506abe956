import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import *


ARGS = ["input.m", "input.n", "input.nz", "input.qn", "input.qnz", "input.acolcnt", "input.acolidx", "input.acolnzs", "input.qcolcnt", "input.qcolidx", "input.qcolnzs",
        "input.rhs", "input.obj", "input.lbound", "input.ubound", "output.primal", "output.dual", "output.status", None, "output.code", "output.opt", None]


def walk(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            yield from walk(v)
    elif isinstance(n, list):
        for v in n:
            yield from walk(v)


def wiring(c):
    k = 0
    for f in list(c.prog.funcs.values()):
        if f.get("impl"):
            continue
        for n in walk(f.get("body")):
            if n.get("k") != "call" or n.get("f") != "bpmpd":
                continue
            k += 1
            c.analysed.add(f["m"])
            if len(n["a"]) != len(ARGS):
                c.viol("wiring", "arguments", where(f, n.get("ln")), "%d arguments for a routine of %d" % (len(n["a"]), len(ARGS)))
                continue
            for i, (a, want) in enumerate(zip(n["a"], ARGS)):
                if want is None:
                    continue
                got = {m["q"].replace("bpmpd_io::bpmpd_", "").replace("::", ".") for m in walk(a) if m.get("k") == "mem" and m.get("q", "").startswith("bpmpd_io::bpmpd_")}
                c.decide(None if len(got) != 1 else got == {want}, "wiring", "argument %d" % (i + 1), where(f, n.get("ln")), "the routine expects %s and is given %s" % (want, ", ".join(got) or "something else"))
    if not k:
        raise Undecided("no call of the BPMPD routine found")


def run():
    c = Check("S09", [P.SCO + "solver_interface.cpp", P.SCO + "bpmpd_interface.cpp", P.SCO + "bpmpd_caller.cpp"], spec="bpmpd.cpp")
    c.load()
    T.SIZE_ALIAS.update(vars="coeffs", vars1="coeffs", vars2="coeffs")
    c.model("bpmpd_io::ser", lambda f: "bpmpd_input" in f["params"][1]["t"], "model_send")
    c.model("bpmpd_io::ser", lambda f: "bpmpd_output" in f["params"][1]["t"], "model_receive")
    R.HINTS.update({"index": range(0, 4)})
    c.rule("law", "every live variable, bound, row and objective coefficient reaches the solver in its convention, and the solution comes back variable by variable")
    c.laws("S09_", at_least=19)
    c.rule("wiring", "every argument of the BPMPD routine is the field of the record that its documented position stands for")
    c.guard("wiring", "bpmpd", P.SCO + "bpmpd_caller.cpp", wiring, c)
    return c.finish()


if __name__ == "__main__":
    main(run)
