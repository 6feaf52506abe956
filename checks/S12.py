import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import *

OPS = {"addVar", "addEqCnt", "addIneqCnt", "removeVar", "removeVars", "removeCnt", "removeCnts"}   # documented: "must be threadsafe"
GUARDS = ("std::scoped_lock", "std::lock_guard", "std::unique_lock", "std::shared_lock")
MUTEX = ("std::mutex", "std::recursive_mutex", "std::shared_mutex", "std::timed_mutex", "std::recursive_timed_mutex")
GROW = {"push_back", "emplace_back", "insert", "emplace", "resize", "erase", "pop_back", "clear", "assign", "swap"}
REP = {"sco::VarRep", "sco::CntRep"}


def kids(n):
    for k, v in n.items():
        if isinstance(v, dict):
            yield v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict):
                    yield x
                elif isinstance(x, list):
                    for y in x:
                        if isinstance(y, dict):
                            yield y


class Locks:
    """which mutexes are held at every access of an operation, through the calls it makes on its own object"""

    def __init__(self, c, cls):
        self.c, self.P, self.cls = c, c.prog, cls
        fields = self.P.all_fields(cls)
        self.mutexes = {f["n"]: f["t"] for f in fields if f["t"].replace("mutable ", "") in MUTEX}
        self.tables = {f["n"] for f in fields if f["t"].startswith("std::vector<")}
        self.seen = set()
        self.acc = []         # (table or rep, write, frozenset held, region, fn, line)
        self.re = []          # mutex taken again while held
        self.region = 0
        self.unknown = None

    def mutex(self, e):
        """the name of the mutex expression e denotes"""
        if e.get("k") == "mem" and e.get("b", {}).get("k") == "this" and e["n"] in self.mutexes:
            return "this." + e["n"]
        if e.get("k") == "ref" and e.get("dk") in ("global", "static"):
            return e.get("q") or e["n"]
        if e.get("k") in ("un", "cast", "copy") and "e" in e:
            return self.mutex(e["e"])
        return None

    def take(self, m, held, fn, ln):
        if m in held and "recursive" not in self.mutexes.get(m.split(".")[-1], "std::mutex"):
            self.re.append((m, fn, ln))
        self.region += 1
        return dict(held, **{m: self.region})

    def run(self, fn, held, depth=0):
        if depth > 8 or fn is None or not fn.get("body"):
            return
        self.c.analysed.add(fn["m"])
        self.owners = {}
        self.fn = fn
        saved = getattr(self, "gv", None)
        self.gv = {}
        self.visit(fn["body"], dict(held), fn, depth)
        self.gv = saved

    def visit(self, n, held, fn, depth):
        """the mutexes held after n"""
        k = n.get("k")
        if k == "blk":
            h, mine = dict(held), []
            for s in n.get("b", []):
                h = self.visit(s, h, fn, depth)
                if s.get("k") == "decl":
                    mine += [m for v in s.get("v", []) for m in self.gv.get(v.get("d"), [])]
            return {m: r for m, r in h.items() if m not in mine or m in held}
        if k == "var":
            t = (n.get("t") or "").replace("const ", "")
            if t.startswith(GUARDS) and not t.endswith(("&", "*")):
                e = n.get("e") or {}
                args = [a for a in e.get("a", [])]
                ms = [self.mutex(a) for a in args]
                tags = [a for a, m in zip(args, ms) if m is None and any(x in str(a.get("t", "")) + str(a.get("n", "")) + str(a.get("q", "")) for x in ("defer_lock", "adopt_lock", "try_to_lock"))]
                other = [a for a, m in zip(args, ms) if m is None and a not in tags]
                if any("try_to" in str(a) or "adopt" in str(a) for a in tags):
                    self.unknown = "conditional ownership of a lock in %s" % fn["q"]
                if any(not self.local(a) for a in other):
                    self.unknown = "a lock on something else than a mutex of the model in %s" % fn["q"]
                ms = [m for m in ms if m]
                self.gv[n.get("d")] = ms
                if not any("defer" in str(a) for a in tags):
                    for m in ms:
                        held = self.take(m if not t.startswith("std::shared_lock") else m + "/shared", held, fn, n.get("ln"))
                        if t.startswith("std::shared_lock"):
                            self.gv[n.get("d")] = [x + "/shared" for x in ms]
                return held
        if k == "call" and n.get("o") is not None and (n.get("f") or "").rsplit("::", 1)[-1] in ("lock", "unlock", "try_lock"):
            o = n["o"]
            ms = [self.mutex(o)] if self.mutex(o) else self.gv.get(o.get("d"), None) if o.get("k") == "ref" else None
            if ms is None:
                self.unknown = "a lock operation on an unknown object in %s" % fn["q"]
                return held
            op = n["f"].rsplit("::", 1)[-1]
            if op == "lock":
                for m in ms:
                    held = self.take(m, held, fn, n.get("ln"))
            elif op == "unlock":
                held = {m: r for m, r in held.items() if m not in ms}
            else:
                self.unknown = "try_lock in %s" % fn["q"]
            return held
        if k == "if":
            held = self.visit(n["c"], held, fn, depth)
            outs = []
            for b in ("t", "e"):
                x = n.get(b)
                if x is not None:
                    o = self.visit(x, dict(held), fn, depth)
                    if not self.leaves(x):
                        outs.append(o)
                else:
                    outs.append(held)
            x = n.get("b")
            if x is not None and "t" not in n:
                for y in (x if isinstance(x, list) else [x]):
                    o = self.visit(y, dict(held), fn, depth)
                    if not self.leaves(y):
                        outs.append(o)
            if not outs:
                return held
            return {m: r for m, r in outs[0].items() if all(m in o for o in outs)}
        if k in ("for", "while", "rfor", "do"):
            h = dict(held)
            for x in kids(n):
                h = self.visit(x, h, fn, depth)
            return {m: r for m, r in held.items() if m in h}
        # evaluation of an expression: operands first
        h = held
        for x in kids(n):
            h = self.visit(x, h, fn, depth)
        self.access(n, h, fn)
        if k == "call":
            self.call(n, h, fn, depth)
        return h

    def leaves(self, n):
        if n.get("k") in ("ret", "throw", "break", "continue"):
            return True
        if n.get("k") == "blk":
            return any(self.leaves(x) for x in n.get("b", []))
        return False

    def local(self, a):
        return a.get("k") == "ref" and a.get("dk") in ("local", "param")

    def table(self, n):
        while n.get("k") in ("cast", "copy"):
            n = n["e"]
        if n.get("k") == "mem" and n.get("b", {}).get("k") == "this" and n["n"] in self.tables:
            return n["n"]
        return None

    def access(self, n, held, fn):
        t = self.table(n) if n.get("k") == "mem" else None
        if t:
            self.acc.append((t, "access", frozenset(held), None, fn, n.get("ln")))
        if n.get("k") == "call" and n.get("o") is not None and (n.get("f") or "").rsplit("::", 1)[-1] in GROW:
            t = self.table(n["o"])
            if t:
                self.acc.append((t, "grow", frozenset(held), dict(held), fn, n.get("ln")))
        if n.get("k") == "asg":
            l = n["l"]
            while l.get("k") in ("cast",):
                l = l["e"]
            if l.get("k") == "mem" and "::".join((l.get("q") or "").split("::")[:-1]) in REP:
                self.acc.append((l["q"].split("::", 1)[1], "write", frozenset(held), None, fn, n.get("ln")))

    def call(self, n, held, fn, depth):
        o = n.get("o")
        while o is not None and o.get("k") == "cast":
            o = o["e"]
        own = o is not None and (o.get("k") == "this" or (o.get("k") == "un" and o.get("op") == "*" and o.get("e", {}).get("k") == "this"))
        if not own:
            return
        m = n.get("m")
        if n.get("virt"):
            m = self.P.resolve_virtual(m, self.cls) or m
        g = self.P.funcs.get(m)
        if g is not None:
            gv, f0 = self.gv, self.fn
            self.run(g, held, depth + 1)
            self.gv, self.fn = gv, f0


def model(c, cls):
    probe = Locks(c, cls)
    if not probe.mutexes:
        c.undecided("lock", cls, cls, "the model has no mutex")
        return 0
    ops = []
    q = c.prog.cls_q["sco::Model"]
    for m in q["methods"]:
        if m["n"] in OPS:
            r = c.prog.resolve_virtual(m["m"], cls) or m["m"]
            f = c.prog.funcs.get(r)
            if f is not None:
                ops.append((m, f))
    common = None
    runs = []
    for m, f in ops:
        L = Locks(c, cls)
        L.run(f, {})
        runs.append((m, f, L))
    n = 0
    full = [set(a[2]) for _, _, L in runs for a in L.acc if a[2]]
    guard = None
    for name in sorted({x for s in full for x in s}):
        k = sum(name in s for s in full)
        if guard is None or k > guard[1]:
            guard = (name, k)
    guard = guard[0] if guard else "this." + sorted(probe.mutexes)[0]
    for m, f, L in runs:
        inst = "%s::%s" % (cls, sig(m, f))
        n += 1
        if L.unknown:
            c.undecided("lock", inst, where(f), L.unknown)
            continue
        bad = [a for a in L.acc if guard not in a[2]]
        if bad:
            a = bad[0]
            c.viol("lock", inst, where(a[4], a[5]), "%s of %s without %s held, reached from the thread-safe operation %s" % ("write" if a[1] != "access" else "access", a[0], guard, f["q"]))
        else:
            c.ok("lock", inst, where(f), "%d accesses under %s" % (len(L.acc), guard))
        gr = {a[3][guard] for a in L.acc if a[1] == "grow" and a[3] and guard in a[3]}
        if not bad and gr:
            c.decide(len(gr) == 1, "region", inst, where(f), "the parallel tables grow in %d separate critical sections: a concurrent addition can come between them" % len(gr))
        c.decide(not L.re, "reacquire", inst, where(f), "%s is taken again while it is held (line %s)" % (L.re[0][0], L.re[0][2]) if L.re else "")
    return n


def sig(m, f):
    return "%s(%s)" % (m["n"], ", ".join(p["t"].replace("const ", "").replace("std::basic_string<char, std::char_traits<char>, std::allocator<char>>", "string").replace(" &", "").replace("sco::", "").split("<")[0] for p in f["params"]))


def run():
    c = Check("S12", [P.SCO + "solver_interface.cpp", P.SCO + "bpmpd_interface.cpp"])
    c.load()
    c.rule("lock", "every access to a table of the model reached from an operation documented as thread-safe holds the model's mutex")
    c.rule("region", "one operation extends all parallel tables within one critical section")
    c.rule("reacquire", "no path takes the mutex again while holding it")
    n = 0
    for k in sorted(x["q"] for x in c.prog.subclasses("sco::Model")):
        n += c.guard("lock", k, k, model, c, k) or 0
    if n < 8:
        raise AnalysisBroken("only %d thread-safe operations found" % n)
    return c.finish()


if __name__ == "__main__":
    main(run)
