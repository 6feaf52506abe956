"""Obligations, comparison of value-flow summaries with reference definitions, known findings, evidence."""
import argparse, concurrent.futures, json, multiprocessing, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import program as P
from program import AnalysisBroken, VERIF
from engine import Engine, Undecided, Path, is_eigen
from terms import *
import terms as T
import nf as N
import rint as R

EVID = os.environ.get("VP_EVID") or os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.json")


class Result(list):
    pass


def where(fn, line=None):
    return "%s:%s (%s)" % (P.rel(fn.get("file", "?")), line or fn.get("ln"), fn["q"])


# ------------------------------------------------------------------------------------------------ canonical paths
class CPath:
    """a path in canonical form"""

    def __init__(self, E, path, argn, keep_calls=None, argmap=None):
        self.E, self.path = E, path
        self.raw = path
        m = {}
        for i, n in enumerate(argn):
            m[("arg", i, n)] = ("arg", argmap(i) if argmap else i)
        if argmap is not None:
            for i, n in enumerate(argn):
                if argmap(i) == "this":
                    m[("arg", i, n)] = ("this",)
        self.occ(path.trace, m)
        self.m = m
        self.memo = {}
        self.sizes = set()
        self.status = path.status
        self.thrown = path.thrown if path.status == "throw" else None
        self.facts = N.lits({self.c(c): b for c, b in path.facts.items()})
        self.keep = keep_calls

    def c(self, t, sizes=False):
        if sizes:
            N.collect_sizes(subst(t, self.m, self.memo), self.sizes)
        return N.nf(self.renum(subst(t, self.m, self.memo)))

    def occ(self, trace, m):
        """number opaque call results and object states by what they are, not by when the analysis met them"""
        cnt = {}
        num = self.occnum = {}

        def walk(tr):
            for ev in tr:
                if ev.kind == "call" and ev.val is not None:
                    v = ev.val[1] if ev.val[0] == "V" else ev.val
                    if v[0] == "call" and v[-1][0] == "occ" and v[-1][1] not in num:
                        k = self.renum(subst(v[:-1], m) + (("occ", -1),))
                        n = cnt.get(k, 0)
                        cnt[k] = n + 1
                        num[v[-1][1]] = "#%d" % n
                elif ev.kind == "loop":
                    for _, t, _ in ev.body:
                        walk(t)
        walk(trace)

    def renum(self, t):
        """number opaque call results by what they are, not by when the analysis met them; receivers lose the version of their state"""
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == "call" and isinstance(t[-1], tuple) and t[-1] and t[-1][0] == "occ":
            n = self.occnum.get(t[-1][1], t[-1][1])
            a = tuple(self.renum(strip_state(x)) for x in t[2:-1])
            if t[1] in MASK:
                a = tuple(("text",) if i - 1 in MASK[t[1]] else x for i, x in enumerate(a))
            return t[:2] + a + (("occ", n) + tuple(self.renum(x) for x in t[-1][2:]),)
        if not find_all(t, lambda y: y[0] == "occ"):
            return t
        m = {x: self.renum(x) for x in find_all(t, lambda y: y[0] == "call" and y[-1][0] == "occ") if x != t}
        m = {k: v for k, v in m.items() if k != v}
        return subst(t, m) if m else t

    # -------------------------------------------------------------- views
    def places(self):
        out = set()
        for p in self.path.mem:
            r = self.E.root(p)
            if r[0] in ("var", "tmp", "static", "newobj", "V"):
                continue
            out.add(p)
        return out

    def ret(self):
        r = self.path.ret
        if r is None or r == ("void",):
            return None
        if r[0] == "lvref":
            r = self.E.read(self.path.st, r[1])
        return self.resolve(self.c(r, True))

    def resolve(self, t):
        """replace addresses of objects created on the path by their contents"""
        for _ in range(3):
            xs = find_all(t, lambda y: y[0] == "addr" and self.E.root(y[1])[0] in ("newobj", "tmp"))
            if not xs:
                return t
            m = {}
            for x in xs:
                v = self.E.read(self.path.st, x[1])
                m[x] = ("ptrto", self.c(v)) if v != x[1] else ("ptrto", ("fresh",))
            t = N.nf(subst(t, m))
        return t

    def mem(self, place):
        """canonical final value of a (canonical) place"""
        inv = self._inv()
        raw = subst(place, inv) if inv else place
        v = self.E.read(self.path.st, raw)
        return self.resolve(self.c(v, True))

    def _inv(self):
        r = {}
        for k, v in self.m.items():
            if k[0] == "arg":
                r[v] = k
        return r

    def trace(self, keep=None, loops=True, tr=None):
        """opaque calls in order, as a sequence value"""
        out = []
        keep = keep or self.keep
        for ev in (self.path.trace if tr is None else tr):
            if ev.kind == "call" and (keep is None or keep(ev)):
                obj = ev.objp if ev.objp is not None else ev.obj
                out.append(("one", ("evt", ev.name.split("::")[-1], strip_state(subst(obj, self.m)) if obj is not None else NULL) +
                            tuple(("text",) if i in MASK.get(ev.name, ()) else self.renum(subst(a, self.m)) for i, a in enumerate(ev.args) if a is not None)))
            elif ev.kind == "loop" and loops:
                alts = []
                for f, t, s in ev.body:
                    b = self.trace(keep, loops, t)
                    alts.append((tuple((subst(c, self.m), v) for c, v in f.items()), b[1] if b[0] == "seq" else ()))
                if any(b for _, b in alts):
                    out.append(("for", ev.q, subst(ev.trip, self.m), tuple(alts)))
        r = ("seq", tuple(out))
        if tr is None:
            r = N.nf(r)
            r = r if r[0] == "seq" else ("seq", (("all", r),))
        return r


def strip_state(t):
    """a place without the version of the object states it goes through"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == "hv":
        return strip_state(t[2])
    if t and t[0] == "phi":
        return strip_state(t[2])
    return tuple(strip_state(x) if isinstance(x, tuple) else x for x in t)


def eq_subst(facts):
    """substitution from the equalities among the facts"""
    m = {}
    for c, b in facts.items():
        if b and c[0] == "eq":
            d = topoly(c[1])
            best = None
            for mono, k in d.items():
                if len(mono) == 1 and mono[0][1] == 1 and abs(k) == 1:
                    a = mono[0][0]
                    if a[0] in ("num",):
                        continue
                    if best is None or weight(a) > weight(best[0]):
                        best = (a, k)
            if best:
                a, k = best
                rest = sub(c[1], mul(("num", k), a))
                m[a] = mul(("num", -1 / k), rest)
        elif b and c[0] == "isnull":
            m[c[1]] = NULL
    return m


def contradictory(facts):
    zero = {c[1] for c, b in facts.items() if b and c[0] == "eq"}
    for c, b in facts.items():
        if c[:2] == ("app", "all") and not b or c[:2] == ("app", "any") and b:
            v = c[2][1] if c[2][0] == "V" else c[2]
            if v[0] == "lam" and v[2] in zero:
                return True     # all() of nothing holds
    m = {}
    for c, b in facts.items():
        if not b or c[0] != "eq":
            continue
        p = subst(c[1], m) if m else c[1]
        if p[0] == "num":
            if p[1] != 0:
                return True
            continue
        d = topoly(p)
        cand = [(mono[0][0], k) for mono, k in d.items() if len(mono) == 1 and mono[0][1] == 1]
        if not cand:
            continue
        a, k = max(cand, key=lambda x: (weight(x[0]), key(x[0])))
        rest = mul(("num", -1 / k), sub(p, mul(("num", k), a)))
        if find_all(rest, lambda y: y == a):
            continue
        m = {x: subst(v, {a: rest}) for x, v in m.items()}
        m[a] = rest
    les = []
    for c, b in facts.items():
        c2 = subst(c, m) if m and c[0] in ("eq", "le", "flt", "fle") else c
        if c2[0] == "bool":
            if c2[1] != b:
                return True
        elif c2[0] == "le":
            # p <= 0, or 1 - p <= 0
            les.append(c2[1] if b else sub(NUM1, c2[1]))
    for i, p in enumerate(les):
        for p2 in les[:i]:
            r = add(p, p2)
            if r[0] == "num" and r[1] > 0:
                return True
    les += [neg(v) for a, v in m.items() if isize(a)]
    return linear_empty(les)


def isize(a):
    return a[0] in ("size", "rows", "cols", "nnz") or a[0] == "fld" and a[2] in T.SIZE_ALIAS


def linear_empty(les, cap=120):
    """no numbers make all of the linear expressions <= 0, sizes being no less than 0: elimination of one term after the other"""
    cs = []
    atoms_ = set()
    for p in les:
        d = topoly(p)
        k = d.pop((), 0)
        atoms_ |= set(d)
        cs.append((d, k))
    for m in atoms_:
        if len(m) == 1 and m[0][1] == 1 and isize(m[0][0]):
            cs.append(({m: Fraction(-1)}, 0))
    while True:
        if any(not d and k > 0 for d, k in cs):
            return True
        cs = [(d, k) for d, k in cs if d]
        if not cs or len(cs) > cap:
            return False
        cnt = {}
        for d, k in cs:
            for m, c in d.items():
                u = cnt.setdefault(m, [0, 0])
                u[c > 0] += 1
        m = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1] - sum(cnt[x]), repr(x)))
        pos = [(d, k) for d, k in cs if d.get(m, 0) > 0]
        negs = [(d, k) for d, k in cs if d.get(m, 0) < 0]
        new = [(d, k) for d, k in cs if m not in d]
        for d1, k1 in pos:
            for d2, k2 in negs:
                a, b = -d2[m], d1[m]
                d = {}
                for x in set(d1) | set(d2):
                    v = a * d1.get(x, 0) + b * d2.get(x, 0)
                    if v:
                        d[x] = v
                new.append((d, a * k1 + b * k2))
        cs = new


_work = [None]


def _call_work(i):
    return _work[0](i)


class Check:
    def __init__(self, pid, units, spec=None, level_note=""):
        ap = argparse.ArgumentParser()
        ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
        ap.add_argument("--verbose", "-v", action="store_true")
        a, _ = ap.parse_known_args()
        self.pid, self.tier, self.verbose = pid, a.tier, a.verbose
        if a.tier == "thorough":
            R.DEPTH, R.BUDGET = 5, 120.0
        self.t0 = time.time()
        self.obl = []           # (status, rule, instance, where, detail, key)
        self.units = list(units)
        self.spec = os.path.join(VERIF, "spec", spec) if spec else None
        self.analysed = set()
        self.calls = 0
        self.loops = 0
        self.paths = 0
        self.rules = {}
        self.prog = None
        self.valuations = self.rint_equal = self.infeasible = 0
        self._vac = {}
        self.files, self.merged = set(), 0

    def load(self, flags=None):
        """flags: {unit: compiler flags} of a build configuration other than the usual one"""
        us = list(self.units)
        if self.spec:
            us.append(self.spec)
        usual = dict(P.EXTRA)
        P.EXTRA.update(flags or {})
        try:
            self.prog = P.load(us)
        finally:
            P.EXTRA.clear()
            P.EXTRA.update(usual)
        N.VALUE_CLASSES[:] = [(q, {f["n"] for f in self.prog.all_fields(q)}) for q, c in self.prog.cls_q.items()
                              if c["fields"] and q in VALUE_TYPES]
        R.VALUE_CLASSES[:] = N.VALUE_CLASSES
        maps = {f["n"]: T.is_map_type(f["t"]) for c in self.prog.cls_q.values() for f in c["fields"] if T.is_map_type(f["t"])}
        R.MAPS |= {n for n in maps if all(T.is_map_type(f["t"]) for c in self.prog.cls_q.values() for f in c["fields"] if f["n"] == n)}
        return self.prog

    def model(self, q, pick, name):
        """the outside world behind function q (a pipe, a solver) is replaced by the model `name` of the reference file"""
        fs = [f for f in self.prog.by_q.get(q, []) if pick(f)]
        if len(fs) != 1:
            raise AnalysisBroken("%d functions %s to model" % (len(fs), q))
        m = self.spec_fn(name)
        fs[0].update({k: m[k] for k in ("params", "body")})

    # ---------------------------------------------------------- results
    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, rule, inst, wh, detail=""):
        self.obl.append(("ok", rule, inst, wh, detail, None))

    def viol(self, rule, inst, wh, detail, key=None):
        self.obl.append(("violation", rule, inst, wh, detail, key or "%s/%s" % (rule, inst)))

    def undecided(self, rule, inst, wh, detail):
        self.obl.append(("undecided", rule, inst, wh, detail, None))

    def decide(self, cond, rule, inst, wh, detail="", key=None):
        if cond is None:
            self.undecided(rule, inst, wh, detail)
        elif cond:
            self.ok(rule, inst, wh)
        else:
            self.viol(rule, inst, wh, detail, key)

    def guard(self, rule, inst, wh, f, *a, **k):
        """run a sub-analysis; construct the analysis cannot follow -> undecided obligation"""
        try:
            return f(*a, **k)
        except Undecided as e:
            self.undecided(rule, inst, wh, "not analysable: %s" % e)
        except AnalysisBroken:
            raise
        except Exception as e:
            if os.environ.get("VP_DEBUG"):
                raise
            self.undecided(rule, inst, wh, "internal: %s: %s" % (type(e).__name__, e))
        return None

    # ---------------------------------------------------------- engine
    def engine(self, **k):
        return Engine(self.prog, **k)

    def summarize(self, fn, dyn=None, **k):
        E = self.engine(**k)
        ps = E.summarize(fn, dyn=dyn)
        self.account(E, ps)
        return E, ps

    def account(self, E, ps):
        self.analysed |= E.visited
        self.loops += E.loops
        self.paths += len(ps)
        self.calls += sum(E.unknown_calls.values())

    def spec_fn(self, name):
        fs = self.prog.by_q.get("spec::" + name, [])
        if len(fs) != 1:
            raise AnalysisBroken("reference definition spec::%s: %d candidates" % (name, len(fs)))
        return fs[0]

    def spec_bad(self, fn):
        bl = self.prog.badlines.get(self.spec, [])
        if not bl:
            return []
        # a definition reaches to the line on which the next one begins (definitions by macros have one line only)
        lo = fn.get("ln", 0)
        mine = [f for f in self.prog.funcs.values() if f.get("file") == fn.get("file") and f.get("ln")]
        nxt = [f["ln"] for f in mine if f["ln"] > lo]
        hi = min(nxt) - 1 if nxt else max(bl)
        helpers = {f["ln"] for f in mine if not f["q"].split("::")[-1].startswith(("lhs_", "rhs_"))}
        starts = sorted({f["ln"] for f in mine})
        owner = lambda b: max([x for x in starts if x <= b], default=0)
        return [b for b in bl if lo <= b <= hi or owner(b) in helpers or not owner(b)]

    # ---------------------------------------------------------- reference comparison
    def same_as(self, rule, fn, spec, inst=None, ret=True, mem=True, calls=None, order="seq", ignore=(), only=None, opaque=(), noinline=None,
                dyn=None, watch=(), canon=None, normal_only=False, assume=None, spec_opaque=None, post=None, pre=None, wh=None):
        """the value flow of fn equals that of the reference definition on every pair of overlapping paths"""
        inst = inst or fn["q"]
        wh = wh or where(fn)
        sp = spec if isinstance(spec, dict) else self.spec_fn(spec)
        if self.spec_bad(sp):
            self.undecided(rule, inst, wh, "the reference definition does not compile against the current declarations")
            return None
        try:
            E1 = self.engine(opaque=opaque, noinline=noinline, watch=watch)
            ps1 = E1.summarize(fn, dyn=dyn, pre=pre)
            self.account(E1, ps1)
            E2 = self.engine(opaque=opaque if spec_opaque is None else spec_opaque, noinline=noinline, watch=watch)
            ps2 = E2.summarize(sp, pre=pre)
            self.account(E2, ps2)
            has_this = bool(sp["params"]) and sp["params"][0]["n"] == "self"
            am = (lambda i: "this" if i == 0 else i - 1) if has_this else None
            keep = calls if callable(calls) else ((lambda ev: True) if calls else None)
            c1 = [CPath(E1, p, [x["n"] for x in fn["params"]], keep) for p in ps1]
            c2 = [CPath(E2, p, [x["n"] for x in sp["params"]], keep, am) for p in ps2]
            bad = self.compare(c1, c2, ret, mem, calls, order, ignore, only, canon, normal_only, assume, post)
        except Undecided as e:
            self.undecided(rule, inst, wh, "not analysable: %s" % e)
            return None
        except RecursionError:
            self.undecided(rule, inst, wh, "too deep")
            return None
        except AnalysisBroken:
            raise
        except Exception as e:
            if os.environ.get("VP_DEBUG"):
                raise
            self.undecided(rule, inst, wh, "internal: %s: %s" % (type(e).__name__, e))
            return None
        if not bad:
            self.ok(rule, inst, wh, "%d/%d paths" % (len(c1), len(c2)))
            return True
        und = [b for b in bad if b[0] == "undecided"]
        vio = [b for b in bad if b[0] == "differs"]
        if vio:
            d = vio[0]
            self.viol(rule, inst, wh, "%s: code gives %s, required %s, when %s" % (d[1], clip(d[2]), clip(d[3]), clip(d[4])))
            return False
        self.undecided(rule, inst, wh, "%s: code gives %s, required %s" % (und[0][1], clip(und[0][2]), clip(und[0][3])))
        return None

    def laws(self, prefix, rule="law", opts=None, at_least=1, **k):
        """every pair spec::lhs_<prefix>* / spec::rhs_<prefix>*: the left side goes through the analysed code, the right side is the
        requirement.  Options by name: *_set compares the result as a multiset, *_calls compares the effects on opaque objects too"""
        names = sorted(q[len("spec::lhs_"):] for q in self.prog.by_q if q.startswith("spec::lhs_" + prefix))
        if len(names) < at_least:
            raise AnalysisBroken("only %d laws %s*" % (len(names), prefix))
        def one(n):
            lhs, rhs = self.spec_fn("lhs_" + n), self.spec_fn("rhs_" + n)
            kk = dict(k)
            kk.setdefault("mem", False)
            if n.endswith("_set"):
                kk["canon"] = multiset
            if "_calls" in n:
                kk.setdefault("calls", True)
                kk["order"] = "multiset"
            kk.update((opts or {}).get(n, {}))
            short = n[len(prefix):].lstrip("_") or n
            tgt = self.target(lhs)
            if self.spec_bad(lhs):
                self.undecided(rule, short, where(tgt), "the law does not compile against the current declarations")
                return
            t0 = time.time()
            self.same_as(rule, lhs, rhs, inst=short, wh=where(tgt), **kk)
            if os.environ.get("VP_TIME"):
                print("%6.1f %s" % (time.time() - t0, n), flush=True)
        self.fan_out(one, names)

    def fan_out(self, one, items):
        """run `one` on each item in worker processes; the obligations come back in order"""
        jobs = int(os.environ.get("VP_JOBS", os.cpu_count() or 1))
        if jobs < 2 or len(items) < 2:
            for i in items:
                one(i)
            return
        counters = ("loops", "paths", "calls", "valuations", "rint_equal", "infeasible")
        _work[0] = None

        def work(i):
            self.obl, self.analysed = [], set()
            for a in counters:
                setattr(self, a, 0)
            one(i)
            return self.obl, self.analysed, [getattr(self, a) for a in counters]
        _work[0] = work
        with concurrent.futures.ProcessPoolExecutor(min(jobs, len(items)), mp_context=multiprocessing.get_context("fork")) as ex:
            for obl, an, cs in ex.map(_call_work, items):
                self.obl += obl
                self.analysed |= an
                for a, v in zip(counters, cs):
                    setattr(self, a, getattr(self, a) + v)

    def merge(self, other):
        """take over the obligations of another part of the same property, decided on other translation units"""
        self.obl += other.obl
        self.units += [u for u in other.units if u not in self.units]
        self.rules.update(other.rules)
        self.files |= other.covered() | other.files
        self.merged += len(other.analysed) + other.merged
        for a in ("loops", "paths", "calls", "valuations", "rint_equal", "infeasible"):
            setattr(self, a, getattr(self, a) + getattr(other, a))

    def covered(self):
        return {P.rel(self.prog.funcs[m]["file"]) for m in self.analysed if m in self.prog.funcs} if self.prog else set()

    def target(self, lhs):
        """the function of the analysed program a law is about: the first one it calls (not an evaluation helper)"""
        found = []

        def walk(n):
            if isinstance(n, list):
                for x in n:
                    walk(x)
            elif isinstance(n, dict):
                if n.get("k") in ("call", "ctor"):
                    g = self.prog.funcs.get(n.get("m"))
                    if g is not None and g.get("body") and g["file"].startswith(P.REPO):
                        found.append(g)
                    elif g is not None and g["q"].startswith("spec::") and g["m"] != lhs["m"] and g.get("body"):
                        walk(g["body"])
                for v in n.values():
                    if isinstance(v, (dict, list)):
                        walk(v)
        walk(lhs["body"])
        pref = [g for g in found if g["q"].split("::")[-1] not in ("value", "size", "getVars", "getRows")]
        return (pref or found or [lhs])[0]

    def compare(self, c1, c2, ret, mem, calls, order, ignore, only, canon, normal_only, assume, post):
        bad = []
        assume = N.lits(assume or {})
        nover = 0
        c1, c2 = ([cp for cp in cs if not any(R.contradicts(c, b) for c, b in cp.facts.items())] for cs in (c1, c2))
        for a in c1:
            if normal_only and a.status != "return":
                continue
            if not N.consistent(a.facts, assume):
                continue
            over = False
            for b in c2:
                if normal_only and b.status != "return":
                    continue
                if not N.consistent(a.facts, b.facts) or not N.consistent(b.facts, assume):
                    continue
                over = True
                nover += 1
                fs = dict(a.facts)
                fs.update(b.facts)
                fs.update(assume)
                if contradictory(fs):
                    nover += 1
                    over = True
                    continue
                sb = eq_subst(fs)
                facts_txt = ", ".join("%s%s" % ("" if v else "!", show(c)) for c, v in fs.items())

                def cmp(what, x, y):
                    if x == y:
                        return
                    if x is None or y is None:
                        bad.append(("differs", what, show(x) if x else "nothing", show(y) if y else "nothing", facts_txt))
                        return
                    if canon:
                        x, y = canon(x), canon(y)
                    if sb:
                        x, y = N.nf(subst(x, sb)), N.nf(subst(y, sb))
                    x, y = N.under(x, fs), N.under(y, fs)
                    x0, y0, ft = x, y, fs
                    if x != y and (a.sizes or b.sizes):
                        m = N.size_subst(a.sizes | b.sizes)
                        x, y = N.nf(subst(x, m)), N.nf(subst(y, m))
                        ft = dict(fs)
                        for ns in a.sizes | b.sizes:
                            for n in ns[1:]:
                                if not find_all((ns[0], n), lambda z: z[0] == "phi") and not R.free((ns[0], n)):
                                    ft[N.nf(ceq(ns[0], n))] = True
                        ft = {c: v for c, v in ft.items() if c not in (T.TRUE, T.FALSE)}
                    if x != y and not (N.opaque(x) or N.opaque(y)):
                        x2, y2 = N.deep(x), N.deep(y)
                        if os.environ.get("VP_DEEP"):
                            print("DEEP", show(x2), "\n  ||", show(y2))
                        if x2 == y2:
                            return
                    if post:
                        x, y = post(x), post(y)
                    if x == y:
                        return
                    if a.sizes or b.sizes:
                        x, y = (post(x0), post(y0)) if post else (x0, y0)
                    if N.unknown(x) or N.unknown(y):
                        bad.append(("undecided", what + " (%s)" % ",".join(sorted({u[0] for u in N.unknown(x) + N.unknown(y)})), show(x), show(y), facts_txt))
                        return
                    r, n, w = R.separate(x, y, ft, T.SIZE_ALIAS, multiset=bool(canon) or (what == "calls" and order == "multiset"))
                    self.valuations += n
                    if r == "differs":
                        if os.environ.get("VP_WIT"):
                            print("WITNESS", w, "FACTS", facts_txt)
                        bad.append(("differs", what, show(x), show(y), facts_txt))
                    elif r == "same":
                        self.rint_equal += 1
                    elif w == R.NOVAL and self.vacuous(a.facts, b.facts):
                        pass
                    else:
                        bad.append(("undecided", what + " (no separating valuation: %s)" % w, show(x), show(y), facts_txt))
                if a.status != b.status:
                    r, n, w = R.separate(NUM0, NUM1, fs, T.SIZE_ALIAS)
                    self.valuations += n
                    if w == R.NOVAL and self.vacuous(a.facts, b.facts):
                        continue
                    bad.append(("differs" if r == "differs" else "undecided", "outcome", a.status, b.status, facts_txt))
                    continue
                if a.status == "throw":
                    continue
                if ret:
                    cmp("result", a.ret(), b.ret())
                if mem:
                    pl = set()
                    for cp in (a, b):
                        for p in cp.places():
                            pl.add(strip_canon(cp, p))
                    tops = [p for p in pl if not any(a.E.is_sub(p, q) for q in pl if q != p)]
                    for p in sorted(tops, key=key):
                        if only is not None and not only(p):
                            continue
                        if any(ig(p) for ig in ignore):
                            continue
                        x, y = a.mem(p), b.mem(p)
                        if is_state(x) or is_state(y):
                            continue
                        cmp(show(p), x, y)
                if calls:
                    x, y = a.trace(), b.trace()
                    if order == "multiset":
                        x = ("seq", tuple(sorted(x[1], key=key)))
                        y = ("seq", tuple(sorted(y[1], key=key)))
                    cmp("calls", x, y)
            if not over and a.status != "throw":
                bad.append(("undecided", "path", "a path that matches no reference path", "", str({show(c): v for c, v in a.facts.items()})))
        if not nover and not bad:
            bad.append(("undecided", "paths", "no overlapping paths", "", ""))
        return bad

    def vacuous(self, fa, fb):
        """each path condition is met by many valuations of the atoms, both together by none of them: the pair of paths never meets"""
        k = (tuple(sorted(fa.items(), key=repr)), tuple(sorted(fb.items(), key=repr)))
        if k not in self._vac:
            self._vac[k] = R.disjoint(fa, fb, T.SIZE_ALIAS)
            self.infeasible += self._vac[k]
        return self._vac[k]

    # ---------------------------------------------------------- finish
    def known(self):
        if not os.path.exists(KNOWN):
            return {}
        d = json.load(open(KNOWN))
        return {k["key"]: k for k in d.get("findings", []) if k["property"] == self.pid}

    def finish(self, extra=None):
        known = self.known()
        ok = [o for o in self.obl if o[0] == "ok"]
        und = [o for o in self.obl if o[0] == "undecided"]
        vio = [o for o in self.obl if o[0] == "violation"]
        new = [o for o in vio if o[5] not in known]
        old = [o for o in vio if o[5] in known]
        files = sorted(self.covered() | self.files)
        cov = {"rules": self.rules, "obligations": len(self.obl), "discharged": len(ok), "undecided": len(und), "violations": len(vio),
               "explanation": "static analysis of the current sources: every listed obligation was decided from the type-checked program",
               "functions_analysed": len(self.analysed) + self.merged, "abstract_paths": self.paths, "loops_summarised": self.loops,
               "opaque_call_sites": self.calls, "equal_by_random_interpretation": self.rint_equal, "path_pairs_never_meeting": self.infeasible, "valuations": self.valuations, "translation_units": [u if not os.path.isabs(u) else os.path.relpath(u, VERIF) for u in self.units],
               "files": files,
               "instances": [{"status": o[0], "rule": o[1], "instance": o[2], "where": o[3], **({"detail": clip(o[4], 600)} if o[4] else {})} for o in self.obl]}
        if extra:
            cov.update(extra)
        ev = {"property": self.pid, "tier": self.tier if self.tier in ("quick", "thorough") else "quick", "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
              "level": "other", "coverage": cov, "wall_s": round(time.time() - self.t0, 3),
              "violations": [{"rule": o[1], "instance": o[2], "where": o[3], "detail": clip(o[4], 2000), "known": o[5] in known} for o in vio],
              "assumptions": ["clang 18's resolution of the program is the compiler's", "opaque calls only change what they are given by mutable reference"]}
        os.makedirs(EVID, exist_ok=True)
        path = os.path.join(EVID, self.pid + ".json")
        json.dump(ev, open(path + ".tmp", "w"), indent=1)
        os.replace(path + ".tmp", path)
        for o in old:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, known[o[5]]["what"]))
        if self.verbose:
            for o in self.obl:
                print("%-9s %-22s %s  [%s]%s" % (o[0], o[1], o[2], o[3], ("\n          " + clip(o[4], 3000)) if o[4] and o[0] != "ok" else ""))
        for o in und:
            print("undecided: %s %s at %s: %s" % (o[1], o[2], o[3], clip(o[4], 300)))
        if new:
            rp = os.path.join(EVID, "violation_%s.txt" % self.pid)
            with open(rp, "w") as f:
                for o in new:
                    f.write("%s\n  rule: %s\n  instance: %s\n  where: %s\n  %s\n\n" % (self.pid, self.rules.get(o[1], o[1]), o[2], o[3], o[4]))
            for o in new:
                print("%s: %s: rule %s violated for %s: %s" % (self.pid, o[3], o[1], o[2], clip(o[4], 700)))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        if not ok and not old:
            print("%s: nothing could be decided" % self.pid, file=sys.stderr)
            return 2
        print("%s: %d obligations discharged, %d undecided, %d known findings (%d functions, %d paths)" % (
            self.pid, len(ok), len(und), len(old), len(self.analysed) + self.merged, self.paths))
        return 0


def multiset(v):
    if v is not None and v[0] == "seq":
        return ("seq", tuple(sorted(v[1], key=key)))
    return v


# (callee, argument) pairs that carry text nobody computes with
MASK = {"sco::Model::addEqCnt": (1,), "sco::Model::addIneqCnt": (1,)}


VALUE_TYPES = {"sco::AffExpr", "sco::QuadExpr", "trajopt_ifopt::Bounds", "sco::ModelType"}


def strip_canon(cp, p):
    return cp.c(p)


def is_state(v):
    return v[0] == "hv" or (v[0] == "V" and v[1][0] == "hv") or (v[0] == "lastof" and contains_hv(v))


def contains_hv(v):
    return bool(find_all(v, lambda y: y[0] == "hv"))


def clip(s, n=900):
    s = s if isinstance(s, str) else str(s)
    return s if len(s) <= n else s[:n] + "..."


def main(f):
    """run a check: f() -> exit status"""
    try:
        rc = f()
    except AnalysisBroken as e:
        print("analysis error: %s" % e, file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
