#!/usr/bin/env python3
"""Development aid: measures how sensitive a check is.  Mutates the exported syntax trees of the named functions in memory, one place at a
time, and reports the mutants the check does not flag.   mutate.py S02 'sco::ConvexObjective::*' [--max N]"""
import copy, fnmatch, importlib, io, json, os, sys, contextlib, multiprocessing as mp
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "checks")]
import program as P

SWAP = {"+": ["-"], "-": ["+"], "*": ["/"], "/": ["*"], "<": ["<="], "<=": ["<"], ">": [">="], ">=": [">"], "==": ["!="], "!=": ["=="],
        "&&": ["||"], "||": ["&&"], "+=": ["-=", "="], "-=": ["+="], "*=": ["/="]}


def is_log(n):
    return n.get("k") == "call" and (n.get("f", "") in ("printf", "fprintf", "console_bridge::log", "std::printf") or "assert" in n.get("f", "") or "operator<<" in n.get("f", ""))


def sites(fn, prog):
    out = []   # (description, apply, undo)
    byt = {}
    mems = {}

    def norm(t):
        return (t or "").replace("const ", "").replace("&", "").strip()
    def collect(n):
        if isinstance(n, dict):
            if n.get("k") == "ref" and n.get("dk") in ("local", "param") and "d" in n:
                byt.setdefault(norm(n.get("t")), {})[n["d"]] = n
            if n.get("k") == "mem":
                pass
            for v in n.values():
                collect(v)
        elif isinstance(n, list):
            for v in n:
                collect(v)
    collect(fn["body"])

    def put(node_, ln_, desc, **kv):
        n = node_
        old = {k: n.get(k, None) for k in kv}
        has = {k: k in n for k in kv}

        def ap():
            n.update(kv)

        def un():
            for k in kv:
                if has[k]:
                    n[k] = old[k]
                else:
                    n.pop(k, None)
        out.append(("%s:%s %s" % (fn["q"], ln_, desc), ap, un))

    def walk(n, ln):
        if isinstance(n, list):
            for v in n:
                walk(v, ln)
            return
        if not isinstance(n, dict):
            return
        ln = n.get("ln", ln)
        k = n.get("k")
        if k == "if" and "GetLogLevel" in json.dumps(n["c"]):
            return
        if k == "expr" and isinstance(n.get("e"), dict) and is_log(n["e"]):
            return
        if k == "throw":
            return
        if k in ("bin", "asg") and n.get("op") in SWAP:
            for o in SWAP[n["op"]]:
                put(n, ln, "%s -> %s" % (n["op"], o), op=o)
        if k == "for" and isinstance(n.get("c"), dict) and n["c"].get("k") == "bin" and n["c"].get("op") in ("<", "!="):
            r = n["c"]["r"]
            put(n["c"], ln, "loop ends one early", r={"k": "bin", "op": "-", "l": r, "r": {"k": "int", "v": "1", "ln": ln}, "ln": ln, "t": r.get("t", "unsigned long")})
        if k == "call" and "::reserve" in n.get("f", ""):
            return
        if k == "cast" and n.get("ck") == "ToVoid":
            return
        if k == "call" and n.get("op") in SWAP and not n.get("unary"):
            for o in SWAP[n["op"]][:1]:
                put(n, ln, "operator%s -> %s" % (n["op"], o), op=o, f=n["f"].replace("operator" + n["op"], "operator" + o))
        if k == "int":
            put(n, ln, "%s -> +1" % n["v"], v=str(int(n["v"]) + 1))
        if k == "float":
            put(n, ln, "%s -> +0.5" % n["v"], v=(float(n["v"]) + 0.5) if not isinstance(n["v"], str) else str(float(n["v"]) + 0.5))
        if k == "bool":
            put(n, ln, "flip bool", v=(not n["v"]) if isinstance(n["v"], bool) else ("0" if str(n["v"]) in ("1", "true") else "1"))
        if k in ("call", "ctor") and len(n.get("a", [])) >= 2 and not n.get("op"):
            a = n["a"]
            for i in range(len(a) - 1):
                if a[i].get("k") != "defarg" and a[i + 1].get("k") != "defarg" and norm(a[i].get("t")) == norm(a[i + 1].get("t")) and a[i] != a[i + 1]:
                    b = list(a)
                    b[i], b[i + 1] = b[i + 1], b[i]
                    put(n, ln, "swap args %d,%d of %s" % (i, i + 1, n.get("f", "").split("::")[-1]), a=b)
        if k == "blk":
            for i, s in enumerate(n["b"]):
                if s.get("k") in ("expr", "asg") and not is_log(s.get("e", {})):
                    b = list(n["b"])
                    b[i] = {"k": "nop", "ln": s.get("ln", ln)}
                    e = s.get("e", s)
                    if "::reserve" in (e.get("f") or "") or e.get("k") == "cast":
                        continue
                    put(n, s.get("ln", ln), "drop statement (%s)" % (e.get("f") or e.get("op") or e.get("k")), b=b)
                if s.get("k") in ("brk", "cont", "break", "continue"):
                    b = list(n["b"])
                    b[i] = {"k": "nop", "ln": s.get("ln", ln)}
                    put(n, s.get("ln", ln), "drop " + s["k"], b=b)
        if k == "if":
            put(n, ln, "negate condition", c={"k": "un", "op": "!", "e": n["c"], "ln": ln, "t": "bool"})
            if n.get("e"):
                put(n, ln, "drop else", e=None)
        if k == "un" and n.get("op") in ("-", "!"):
            put(n, ln, "drop unary " + n["op"], **{kk: vv for kk, vv in n["e"].items()})
        if k == "ref" and n.get("dk") in ("local", "param") and "d" in n and not n["n"].startswith("__"):
            for d, o in list(byt.get(norm(n.get("t")), {}).items()):
                if d != n["d"] and o["n"] != n["n"]:
                    put(n, ln, "use %s for %s" % (o["n"], n["n"]), d=d, n=o["n"], dk=o["dk"])
                    break
        if k == "mem" and n.get("q"):
            cl, f = n["q"].rsplit("::", 1)
            cands = [x for x in prog.all_fields(cl)] if cl in prog.cls_q else []
            me = [x for x in cands if x["n"] == n["n"]]
            if me:
                for x in cands:
                    if x["n"] != n["n"] and x.get("t") == me[0].get("t"):
                        put(n, ln, "field %s for %s" % (x["n"], n["n"]), n=x["n"], q=cl + "::" + x["n"])
                        break
        for kk, v in n.items():
            if isinstance(v, (dict, list)) and kk not in ("rt",):
                walk(v, ln)
    walk(fn["body"], fn.get("ln"))
    return out


def main():
    pid, pats = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith("-")]
    showall = "--all" in sys.argv
    sys.argv = sys.argv[:1]
    cache = {}
    real = P.load

    def load(units):
        k = tuple(units)
        if k not in cache:
            cache[k] = real(units)
        return cache[k]
    P.load = load
    import check
    check.EVID = "/tmp/mut_evid_%d" % os.getpid()
    check.P.load = load
    mod = importlib.import_module(pid)
    with contextlib.redirect_stdout(io.StringIO()) as so:
        rc = mod.run()
    print("baseline rc", rc, so.getvalue().strip().split("\n")[-1][:150])
    prog = list(cache.values())[0]
    fns = []
    for prog in cache.values():
        for f in prog.funcs.values():
            if f.get("body") and f["file"].startswith(P.REPO) and any(fnmatch.fnmatchcase(f["q"], p) for p in pats):
                fns.append((f, prog))
    work = []
    for f, pr in fns:
        work += [(d, a, u) for d, a, u in sites(f, pr)]
    res = []

    def one(i):
        d, a, u = work[i]
        a()
        check.EVID = "/tmp/mut_evid_%d" % os.getpid()
        with contextlib.redirect_stdout(io.StringIO()) as so, contextlib.redirect_stderr(so):
            try:
                rc = mod.run()
            except Exception as e:
                rc = "exc %s" % str(e)[:80]
        u()
        txt = so.getvalue()
        und = [l for l in txt.split("\n") if l.startswith("undecided")]
        return i, rc, (und[0] if und else txt.strip().split("\n")[-1])[:170]
    global ONE
    ONE = one
    with mp.get_context("fork").Pool(8, maxtasksperchild=20) as pool:
        res = pool.map(_call, range(len(work)), chunksize=1)
    caught = sum(1 for r in res if r[1] == 1)
    for i, rc, txt in res:
        if rc != 1 or showall:
            print(rc, work[i][0], "" if rc == 1 else ("| " + txt if "undecided" in txt or rc != 0 else ""))
    print("caught %d of %d mutants in %d functions" % (caught, len(work), len(fns)))
    os.system("rm -rf /tmp/mut_evid_*")


def _call(i):
    return ONE(i)


if __name__ == "__main__":
    main()
