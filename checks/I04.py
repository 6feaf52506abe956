import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import *


def walk(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            yield from walk(v)
    elif isinstance(n, list):
        for v in n:
            yield from walk(v)


def needs_owner(prog, fn, seen):
    """the call of shared_from_this() on the object itself that fn reaches, directly or through its own member functions"""
    for n in walk([fn.get("inits"), fn.get("body")]):
        if n.get("k") != "call" or not n.get("f"):
            continue
        o = n.get("o")
        if o is not None and (o.get("k") == "cast" or o.get("k") == "this"):
            while o.get("k") == "cast":
                o = o["e"]
        own = o is None or o.get("k") == "this" or (o.get("k") == "un" and o.get("e", {}).get("k") == "this")
        if own and n["f"].endswith("::shared_from_this"):
            return n.get("ln"), fn
        g = prog.funcs.get(n.get("m"))
        if own and g is not None and g.get("cls") and g["m"] not in seen:
            seen.add(g["m"])
            r = needs_owner(prog, g, seen)
            if r:
                return r
    return None


def registration(c):
    """an object under construction has no owner yet: shared_from_this() throws there, so a constructor cannot hand out the object"""
    n = 0
    for fn in list(c.prog.funcs.values()):
        if not fn.get("ctor") or not fn["q"].startswith("trajopt_ifopt::") or fn.get("impl"):
            continue
        n += 1
        r = needs_owner(c.prog, fn, set())
        c.analysed.add(fn["q"])
        if r:
            c.viol("registration", fn["q"], where(fn), "the constructor calls shared_from_this() (line %s of %s): no owner exists before the constructor returns, so construction always fails" % (r[0], r[1]["q"]), key="registration/" + fn["q"])
    if n < 3:
        raise AnalysisBroken("only %d constructors found" % n)
    c.ok("registration", "constructors", "trajopt_ifopt/", "%d constructors" % n)


def run():
    c = Check("I04", [P.IFO + "core/bounds.cpp", P.IFO + "core/component.cpp", P.IFO + "utils/ifopt_utils.cpp", P.IFO + "variable_sets/var.cpp", P.IFO + "variable_sets/node.cpp", P.IFO + "variable_sets/nodes_variables.cpp", P.IFO + "variable_sets/nodes_observer.cpp"], spec="problem.cpp")
    c.load()
    R.HINTS.update({"index_": range(0, 5), "length_": range(0, 4)})
    c.rule("law", "each entry of the vector reaches the variable that owns it, and values, bounds, indices and sizes are reported in the same layout")
    c.laws("I04_", at_least=30, opts={"I04_nodes_set_observers_calls": {"calls": lambda ev: (ev.name or "").endswith("updateNodes")}})
    c.rule("registration", "no constructor needs the shared ownership of the object it constructs")
    registration(c)
    return c.finish()


if __name__ == "__main__":
    main(run)
