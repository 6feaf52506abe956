import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import *
from terms import find_all, subst, sub, mul

IO = "bpmpd_io::"
SIZES_OF = {"char": 1, "int": 4, "double": 8, "unsigned long": 8, "unsigned int": 4, "long": 8, "float": 4, "short": 2, "bool": 1, "unsigned char": 1, "signed char": 1}


def walk(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            yield from walk(v)
    elif isinstance(n, list):
        for v in n:
            yield from walk(v)


def callees(fn):
    return [n for n in walk([fn.get("inits"), fn.get("body")]) if n.get("k") == "call" and n.get("f")]


def num(t):
    return t[1] if t and t[0] == "num" else None


class S10:
    def __init__(self, c):
        self.c, self.P = c, c.prog
        es = [e for e in self.P.enums.values() if e["q"] == IO + "SerMode"] if isinstance(self.P.enums, dict) else [e for e in self.P.enums if e["q"] == IO + "SerMode"]
        if not es:
            raise AnalysisBroken("enumeration bpmpd_io::SerMode not found")
        self.mode = {x["n"]: int(x["v"]) for x in es[0]["c"]}
        fns = [f for f in self.P.funcs.values() if f["q"].startswith(IO) and not f.get("impl")]
        # the primitives: functions of the protocol that hand a block to the system themselves
        self.prim = {f["m"]: {n["f"] for n in callees(f) if n["f"] in ("read", "write", "::read", "::write")} for f in fns}
        self.prim = {m: k for m, k in self.prim.items() if k}
        self.ser = [f for f in fns if f["q"] == IO + "ser"]
        self.rec = [f for f in self.ser if self.record(f)]
        self.gen = [f for f in self.ser if not self.record(f)]

    def record(self, f):
        t = f["params"][1]["t"].replace("&", "").strip()
        return t if t in self.P.cls_q and t.startswith(IO) else None

    def paths(self, f, mode, opaque):
        """the paths of f in one direction"""
        ps = self.c.engine(opaque=opaque).summarize(f)
        self.c.analysed.add(f["m"])
        self.c.paths += len(ps)
        arg = ("arg", 2, f["params"][2]["n"])
        v = {arg: T.num(self.mode[mode])}
        out = []
        for p in ps:
            fs = {N.nf(subst(k, v)): b for k, b in p.facts.items()}
            if all((k == T.TRUE) == b for k, b in fs.items() if k in (T.TRUE, T.FALSE)):
                out.append((p, fs))
        return out

    # ------------------------------------------------------------ records
    def records(self):
        c = self.c
        for f in self.rec:
            t, wh = self.record(f), where(f)
            fields = [x["n"] for x in self.P.all_fields(t)]
            bi = ("arg", 1, f["params"][1]["n"])
            orders = {}
            for mode in self.mode:
                ps = self.paths(f, mode, [g["m"] for g in self.ser if g is not f] + list(self.prim))
                live = [(p, fs) for p, fs in ps if p.status in ("return", "normal") and not any(e.kind == "call" and e.name == "exit" for e in p.trace)]
                seqs = set()
                for p, fs in live:
                    if any(e.kind == "loop" for e in p.trace):
                        raise Undecided("loop in the serializer of a record")
                    ev = [e for e in p.trace if e.kind == "call" and e.name == IO + "ser"]
                    if len(ev) != len([e for e in p.trace if e.kind == "call" and (e.name == IO + "ser" or e.name in ("read", "write") or e.name.startswith(IO))]):
                        raise Undecided("a record is transferred by other means than its fields")
                    seqs.add(tuple((e.argp[1] if e.argp[1] and e.argp[1][0] == "fld" else ("local",), e.args[0] == ("arg", 0, f["params"][0]["n"]),
                                    N.nf(subst(e.args[2], {("arg", 2, f["params"][2]["n"]): T.num(self.mode[mode])}))) for e in ev))
                if len(seqs) != 1:
                    c.viol("record", "%s/%s" % (t, mode), wh, "no single sequence of fields in direction %s (%d)" % (mode, len(seqs)))
                    continue
                seq = seqs.pop()
                orders[mode] = [s[0] for s in seq]
                got = [s[0][2] for s in seq if s[0][0] == "fld" and s[0][1] == bi]
                miss = [x for x in fields if got.count(x) != 1]
                bad = [s for s in seq if not s[1] or s[2] != T.num(self.mode[mode])]
                c.decide(not miss, "fields", "%s/%s" % (t, mode), wh, "field %s of %s is transferred %s times in direction %s" % (miss[:1], t, [got.count(x) for x in miss[:1]], mode))
                c.decide(not bad, "direction", "%s/%s" % (t, mode), wh, "a field of %s leaves the pipe or direction the record was given for" % t)
                # the greeting must not be the value that ends the conversation
                for p, fs in ps:
                    for e in p.trace:
                        if e.kind == "call" and e.name == IO + "ser" and e.argp[1] and e.argp[1][0] == "var" and mode == "SER":
                            self.greeting(f, t, p, e)
            if len(orders) == 2:
                a, b = orders["SER"], orders["DESER"]
                c.decide(a == b, "order", t, wh, "the writer visits %s, the reader %s" % ([x[-1] for x in a], [x[-1] for x in b]))
        if len(self.rec) < 2:
            raise AnalysisBroken("only %d record serializers found" % len(self.rec))

    def greeting(self, f, t, p, e):
        v = num(N.nf(e.args[1]))
        if v is None or not any(x.kind == "call" and x.name == "exit" for x in p.trace):
            return
        for k, b in p.facts.items():
            if b and k[0] == "eq" and k[1][0] == "poly":
                cs = [q for m, q in k[1][1] if not m]
                if cs and find_all(k[1], lambda y: y[0] == "V" or y[0] == "var"):
                    self.c.decide(-cs[0] != v, "greeting", t, where(f), "the writer's greeting %s is the value at which the reader gives up" % v)

    # ------------------------------------------------------------ fields
    def fields(self):
        c = self.c
        for f in self.gen:
            t = f["params"][1]["t"].replace("&", "").strip()
            x = ("arg", 1, f["params"][1]["n"])
            fd = ("arg", 0, f["params"][0]["n"])
            vec = re.match(r"std::vector<([\w ]+?)(,.*)?>$", t)
            el = SIZES_OF.get(vec.group(1) if vec else t)
            if el is None:
                c.undecided("field", t, where(f), "size of the type unknown")
                continue
            for mode in self.mode:
                want = "write" if mode == "SER" else "read"
                ps = [p for p, _ in self.paths(f, mode, [g["m"] for g in self.ser] + list(self.prim)) if p.status in ("return", "normal")]
                inst = "%s/%s" % (t.split(",")[0], mode)
                if not ps or any(e.kind == "loop" for p in ps for e in p.trace):
                    c.undecided("field", inst, where(f), "not a straight transfer")
                    continue
                for p in ps:
                    tr = [e for e in p.trace if e.kind == "call" and self.transfers(e)]
                    sz = [e for e in p.trace if e.kind == "call" and e.name == IO + "ser"]
                    if len(tr) > 1:
                        c.undecided("field", inst, where(f), "transferred in parts")
                        break
                    if not tr:
                        c.viol("field", inst, where(f), "on a path in direction %s nothing is transferred" % mode)
                        break
                    e = tr[0]
                    d, ptr, n = e.args[:3]
                    bad = None
                    if self.transfers(e) != {want}:
                        bad = "direction %s calls the %s" % (mode, "/".join(self.transfers(e)))
                    elif d != fd:
                        bad = "the block goes to another pipe"
                    elif not vec:
                        ok = ptr == ("addr", x) or (mode == "SER" and ptr[0] == "addr" and ptr[1][0] == "var" and p.mem.get(ptr[1]) in (x, None))
                        bad = None if ok else "the block transferred is not the field"
                        if N.nf(n) != T.num(el):
                            bad = "%s bytes are transferred for a field of %d" % (show(n), el)
                    else:
                        if ptr != ("beg", x) and ptr != ("addr", ("elm", x, T.num(0))):
                            bad = "the block transferred is not the vector's storage"
                        elif len(sz) != 1 or p.trace.index(sz[0]) > p.trace.index(e):
                            bad = "the length does not precede the elements exactly once"
                        elif sz[0].args[0] != fd or not (mode == "DESER" or N.nf(sz[0].args[1]) == N.nf(T.size_of(x))):
                            bad = "the length sent is %s" % show(sz[0].args[1])
                        else:
                            pl = sz[0].argp[1]
                            cnt = [y for y in find_all(n, lambda y: y[0] in ("V", "size", "var", "hv"))]
                            lens = [N.nf(mul(T.num(el), y)) for y in cnt if y == T.size_of(x) and mode == "SER" or pl in find_all(y, lambda z: z == pl)] if pl else []
                            if N.nf(n) not in lens:
                                bad = "%s bytes are transferred for the announced number of elements of %d bytes" % (show(n), el)
                            elif mode == "DESER":
                                w = [i for i, y in enumerate(p.trace) if y.kind == "write" and y.obj == x]
                                if not w or w[0] > p.trace.index(e):
                                    bad = "the elements are read before the vector has the announced length"
                                elif pl not in find_all(p.trace[w[0]].val, lambda z: z == pl):
                                    bad = "the vector is resized to %s, not to the announced length" % show(p.trace[w[0]].val)
                    c.decide(bad is None, "field", inst, where(f), bad or "")
                    break
        if len(self.gen) < 4:
            raise AnalysisBroken("only %d field serializers found" % len(self.gen))

    def transfers(self, e):
        if e.name in ("read", "write"):
            return {e.name}
        g = [f for f in self.P.by_q.get(e.name, []) if f["m"] in self.prim]
        return set().union(*(self.prim[f["m"]] for f in g)) if g else set()

    # ------------------------------------------------------------ completion
    def completion(self):
        c = self.c
        for m in self.prim:
            f = self.P.funcs[m]
            ps = c.engine().summarize(f)
            c.analysed.add(m)
            c.paths += len(ps)
            for kind in sorted(self.prim[m]):
                r = self.complete(f, ps, kind)
                c.decide(None if r == "?" else r is None, "completion", "%s/%s" % (f["q"] + ":" + f["params"][1]["t"].split("<")[0], kind), where(f), r or "")
        if not self.prim:
            raise AnalysisBroken("no transfer to or from the pipe found")

    def complete(self, f, ps, kind):
        und = False
        for p in ps:
            if p.status not in ("return", "normal"):
                continue
            for e in p.trace:
                if e.kind == "call" and e.name == kind:
                    # one transfer: its count must be compared with what was asked for
                    d = sub(e.val, e.args[2])
                    if not any((b and k == T.norm_cond(("eq", d))) or (not b and k in (T.norm_cond(("le", T.add(d, T.NUM1))), T.norm_cond(("le", T.add(sub(T.NUM0, d), T.NUM1))))) for k, b in p.facts.items()):
                        return "a single %s() whose count is not compared with the size asked for: a transfer that the system splits is taken for complete" % kind
                if e.kind == "loop":
                    alts = [a for a in e.body if any(x.kind == "call" and x.name == kind for x in a[1])]
                    if alts:
                        r = self.loop(f, e, alts, kind, ps)
                        if r == "?":
                            und = True
                        elif r:
                            return r
        return "?" if und else None

    def loop(self, f, ev, alts, kind, ps):
        def phi(t):
            if not isinstance(t, tuple) or not t:
                return t
            if t[0] == "lout":
                return ("phi", t[1], t[4][t[7]])
            return tuple(phi(x) for x in t)
        NN = ("arg", 90, "n")

        def ab(t, call):
            return N.nf(subst(phi(t), {phi(call): NN, phi(strip_occ(call)): NN}))
        ev0 = next(x for x in alts[0][1] if x.kind == "call" and x.name == kind)
        louts = find_all((ev0.args, tuple(k for a in alts for k in a[0])), lambda y: y[0] == "lout")
        if not louts:
            return "every round of the loop asks for the same block again: what has moved already is not skipped"
        big = max(louts, key=lambda l: len(l[4]))
        P, S = phi(ev0.args[1]), phi(ev0.args[2])
        init = {("phi", big[1], v): i for v, i in zip(big[4], big[5])}
        if not set(find_all((P, S), lambda y: y[0] == "phi")) <= set(init):
            return "?"
        call = ev0.val
        back = []
        for g, new in big[6]:
            nx = {("phi", big[1], v): ab(x, call) for v, x in zip(big[4], new)}
            back.append(({ab(k, call): b for k, b in g}, nx))
        rest = []
        for a in ev.body:
            if a[2] not in ("normal", "throw"):
                return "?"
            rest.append(({ab(k, call): b for k, b in a[0].items()}, a[2]))
        for p in ps:
            if p.status not in ("return", "normal"):
                rest.append(({ab(k, call): b for k, b in p.facts.items()}, p.status))
        S0 = N.nf(subst(S, init))
        P0 = N.nf(subst(P, init))
        PH = find_all(tuple(init), lambda y: y[0] == "phi")
        vals = {x: ("arg", 91 + i, "i%d" % i) for i, x in enumerate(sorted(set(PH), key=repr))}
        seen = [0, 0]
        ints, nums = set(), set()
        for seed in range(400):
            V = R.Valuation(("pipe", seed), ints, nums, {}, intpool=[-1, 0, 1, 2, 3, 5, 8])
            try:
                T_ = lambda t: subst(t, vals)
                s, n = V.num(V.ev(N.nf(T_(S)), {})), V.num(V.ev(NN, {}))
                if s <= 0 or n > s or n < -1 or s != int(s) or n != int(n):
                    continue
                hold = [(g, st) for g, st in rest if all(bool(V.truth(V.ev(N.nf(T_(k)), {}))) == b for k, b in g.items())]
                seen[0] += 1
                if V.grown:
                    continue
                if not hold:
                    return "the loop can end while %d bytes of the field are still outstanding" % s
                for g, nx in back:
                    if not all(bool(V.truth(V.ev(N.nf(T_(k)), {}))) == b for k, b in g.items()):
                        continue
                    seen[1] += 1
                    dP = V.num(V.ev(N.nf(T_(sub(subst(P, nx), P))), {}))
                    dS = V.num(V.ev(N.nf(T_(sub(subst(S, nx), S))), {}))
                    want = max(n, 0)
                    if dP != want or dS != -want:
                        return "after a transfer of %d of %d bytes the next one starts %+d bytes further and asks for %+d" % (n, s, dP, dS)
            except (R.Reject, R.Unknown):
                continue
        if seen[0] < 10 or seen[1] < 5:
            return "?"
        a = {N.nf(x["n"]) if False else ("arg", i, x["n"]) for i, x in enumerate(f["params"])}
        if S0 not in a and P0 not in a and not find_all((P0, S0), lambda y: y[0] in ("arg", "size", "beg", "addr")):
            return "the first transfer does not ask for the block given"
        return None

    # ------------------------------------------------------------ both ends
    def ends(self):
        use = {}
        for f in self.P.funcs.values():
            if f["q"].startswith(IO) or f.get("impl") or f["q"].startswith("spec::"):
                continue
            for n in callees(f):
                if n["f"] == IO + "ser" and len(n.get("a", [])) == 3:
                    t = self.P.funcs.get(n.get("m"), {})
                    r = self.record(t) if t else None
                    mo = [y.get("n") or y.get("q", "").split("::")[-1] for y in walk(n["a"][2]) if y.get("k") == "ref"]
                    use.setdefault((r, mo[0].split("::")[-1] if mo else None), []).append((f, n))
        for r in (IO + "bpmpd_input", IO + "bpmpd_output"):
            w, d = use.get((r, "SER"), []), use.get((r, "DESER"), [])
            if not w or not d:
                self.c.decide(None if any(k[1] is None for k in use) else False, "ends", r, where((w or d or [(self.rec[0], None)])[0][0]), "%s is %s by neither end of the pipe" % (r, "written" if not w else "read"))
                continue
            self.c.decide(not ({x[0]["file"] for x in w} & {x[0]["file"] for x in d}), "ends", r, where(w[0][0]), "one end both writes and reads %s" % r)


def strip_occ(t):
    return t[:-1] if t and t[0] == "call" and isinstance(t[-1], tuple) and t[-1][0] == "occ" else t


def run():
    c = Check("S10", [P.SCO + "bpmpd_interface.cpp", P.SCO + "bpmpd_caller.cpp"])
    c.load()
    c.rule("fields", "in each direction every field of a record is transferred exactly once")
    c.rule("direction", "every field goes through the pipe and in the direction the record was given for")
    c.rule("order", "writer and reader visit the same fields in the same order")
    c.rule("record", "the sequence of fields does not depend on the data")
    c.rule("greeting", "the writer's greeting is not the value that ends the conversation")
    c.rule("field", "a field's block is its own storage, of its own size in bytes; a vector's length precedes its elements and sizes the reader's storage")
    c.rule("completion", "a transfer continues, at the position reached, until nothing of the block is outstanding, or fails")
    c.rule("ends", "each record is written by one end of the pipe and read by the other")
    s = S10(c)
    for g in (s.records, s.fields, s.completion, s.ends):
        c.guard(g.__name__, g.__name__, "trajopt_sco/include/trajopt_sco/bpmpd_io.hpp", g)
    return c.finish()


if __name__ == "__main__":
    main(run)
