"""Exploration of a function to a fixpoint over a finite abstraction of its states.

The value-flow engine follows one iteration of a loop exactly; here loops are iterated until no new abstract state
appears at their heads.  At a head a state is brought to canonical form: values that differ from one iteration to the next
are replaced by tags, consistently (equal values stay equal, expressions over them keep their shape), counters are widened
at once and facts about forgotten values are dropped.  What is then proved about a state holds for every iteration of every
run."""
from engine import *
from engine import Engine, Event, Undecided
from terms import *
import terms as T
import nf as N

KINDKEEP = ("bool", "str", "null")


class Explorer(Engine):
    MAXHEADS = 20000

    def __init__(self, prog, **k):
        super().__init__(prog, **k)
        self.heads = 0
        self.edges = 0
        self.memo = {}
        self.steps = {}
        self.deadmemo = {}
        self.weigh = {}
        self.order = {}
        self.enumvars = set()

    # ------------------------------------------------------------ to be given by the check
    def nan(self, t):
        """is the value not-a-number in this exploration?"""
        return False

    def constant_field(self, place):
        """fields whose constants are kept (enumerations, flags)"""
        return False

    def generalise(self, s):
        """places whose whole value is one unknown at a loop head"""
        return ()

    def stale(self, s):
        """places whose value is forgotten whenever states are brought to canonical form"""
        return ()

    def weighs(self, c):
        r = self.weigh.get(c)
        if r is None:
            r = self.weigh[c] = self.important(c)
        return r

    def important(self, c):
        """conditions whose outcome is not forgotten where states are joined"""
        return False

    def shapes(self, s):
        """place -> what it is to hold, as a function of how places are read"""
        return {}

    def enter(self, s, node):
        """places to remember the values at the head of the present iteration in: {place: value}"""
        return {}

    def back_edge(self, head, s, node, bound):
        """s: state at the end of an iteration that began in head, on which the loop's condition said `bound`"""
        pass

    # ------------------------------------------------------------ comparisons
    def arith(self, op, a, b, t, e=None):
        if op in ("<", "<=", ">", ">=", "==") and (self.nan(a) or self.nan(b)):
            return T.FALSE
        if op == "!=" and (self.nan(a) or self.nan(b)):
            return T.TRUE
        if op in ("&", "|"):
            neutral, zero = (T.TRUE, T.FALSE) if op == "&" else (T.FALSE, T.TRUE)
            for x, y in ((a, b), (b, a)):
                if x == neutral:
                    return y
                if x == zero:
                    return zero
        return super().arith(op, a, b, t, e)

    # ------------------------------------------------------------ lifetimes
    def ended(self, sts, before, status=("normal", "continue", "break", "return", "throw")):
        for s in sts:
            keep = s.ret[1] if s.ret is not None and s.ret[0] == "lvref" else None
            for p in [p for p in s.mem if self.root(p)[0] == "var" and self.root(p) not in before and (keep is None or self.root(p) != self.root(keep))]:
                del s.mem[p]
        return sts

    def ex(self, n, st):
        if n is None or n.get("k") not in ("blk", "for", "while", "do", "rfor"):
            return super().ex(n, st)
        before = {self.root(p) for p in st.mem}
        if n["k"] != "blk":
            return self.ended(super().ex(n, st), before)
        self.nodes += 1
        sts = [st]
        for i, c in enumerate(n["b"]):
            gone = self.unused(n, i)
            if gone:
                for s in sts:
                    self.forget(s, gone)
            if c is not None and c.get("k") in ("for", "while", "do", "rfor"):
                sts = self.arrive(sts)
            nxt = []
            for s in sts:
                nxt += self.ex(c, s) if s.status == "normal" else [s]
            sts = self.merge(nxt)
        return self.ended(sts, before)

    def loop_name(self, n):
        return "%s.%s" % (n.get("ln"), id(n))

    def unused(self, n, i):
        """locals declared in the block before statement i which nothing from there on mentions"""
        k = (id(n), i)
        r = self.deadmemo.get(k)
        if r is None:
            decl = set()
            for c in n["b"][:i]:
                if c is not None and c.get("k") == "decl":
                    decl |= {v["d"] for v in c["v"] if "d" in v and not v.get("static") and v.get("binds") is None}
            used = set()

            def walk(x):
                if isinstance(x, dict):
                    if x.get("k") == "ref" and "d" in x:
                        used.add(x["d"])
                    if x.get("k") == "lambda":
                        used.update(decl)
                    for y in x.values():
                        walk(y)
                elif isinstance(x, list):
                    for y in x:
                        walk(y)
            walk(n["b"][i:])
            r = self.deadmemo[k] = frozenset(decl - used)
        return r

    def forget(self, s, gone):
        fid = s.frame.id
        for d in gone:
            p = ("var", d, fid)
            if any(self.root(q) == p for k, q in s.env.items() if k != (fid, d)):
                continue
            mine = [q for q in s.mem if self.root(q) == p]
            if mine and not any(find_all(v, lambda y: y == p) for q, v in s.mem.items() if self.root(q) != p):
                for q in mine:
                    del s.mem[q]

    def declare(self, v, st):
        t = v.get("t", "").replace("const ", "").strip(" &")
        if "d" in v and any(x["q"] == t for x in (self.P.enums.values() if isinstance(self.P.enums, dict) else self.P.enums)):
            self.enumvars.add(("var", v["d"], st.frame.id))
        return super().declare(v, st)

    def arrive(self, sts):
        """what is known besides the values is forgotten where a loop is entered"""
        out, res = {}, []
        for s in sts:
            if s.status != "normal":
                res.append(s)
                continue
            s, key = self.canon(s, {self.root(p) for p in s.mem if self.root(p)[0] in ("var", "tmp")}, set(), None)
            if (s.frame.id, key) not in out:
                out[(s.frame.id, key)] = s
                res.append(s)
        return res

    def inline(self, fn, args, st, this, dyn=None, parent=None):
        before = {self.root(p) for p in st.mem}
        out = super().inline(fn, args, st, this, dyn=dyn, parent=parent)
        for s, p, _ in out:
            if p is None or self.root(p)[0] != "var":
                self.ended([s], before)
        return out

    # ------------------------------------------------------------ joins
    JOIN = 4

    def merge(self, sts):
        """states equal in every value are joined when there are many: what is known is what both know"""
        if len(sts) <= self.JOIN:
            return sts
        out = {}
        for s in sts:
            imp = frozenset((c, b) for c, b in s.facts.items() if self.weighs(c))
            k = (s.status, s.ret, s.thrown, s.frame.id, imp, frozenset((p, v) for p, v in s.mem.items() if self.root(p)[0] != "tmp"))
            o = out.get(k)
            if o is None:
                out[k] = s
            else:
                o.facts = {c: b for c, b in o.facts.items() if s.facts.get(c) == b}
        return super().merge(list(out.values()))

    # ------------------------------------------------------------ canonical states
    def fresh_kind(self, t):
        """(kind) of an opaque value, or None for a value that is part of the vocabulary"""
        if not isinstance(t, tuple) or not t:
            return None
        if t[0] == "call" and isinstance(t[-1], tuple) and t[-1] and t[-1][0] == "occ":
            return t[1]
        if t[0] in ("hv", "unk", "newobj", "phi", "store", "st", "seq", "lout", "fexit", "raw"):
            return "new"
        if t[0] == "tag":
            return t[1]
        return None

    SIZE = 200

    def rank(self, p):
        r = self.order.get(p)
        if r is None:
            r = self.order[p] = repr(p)
        return r

    def canon(self, st, places, drop, entry, head=True):
        """-> (state in canonical form, key).

        Every place gets a value over the names of this state: a value that is not an expression over values named so far is
        itself named after the place.  The names are the same in every state, so there are finitely many forms."""
        for p in [p for p in st.mem if self.root(p)[0] in ("var", "tmp") and self.root(p) not in places]:
            del st.mem[p]
        st.trace = []
        m = {}
        back = {}

        def name(v, n):
            if v not in m:
                t = ("ntag", n)
                back[t] = ("tag", n)
                m[v] = ("V", t) if has_v(v) else t
                if v[0] == "V":
                    m.setdefault(v[1], t)
        for p in sorted((p for p in st.mem if p[0] == "fld" and p[1] == ("ghost", "head")), key=self.rank):
            if self.opaque_parts(st.mem[p]):
                name(st.mem[p], repr(p))
        for p, kind in self.generalise(st):
            v = self.read(st, p)
            if v[0] not in ("num", "bool", "str"):
                name(v, kind)
        new = {}
        stale = set(self.stale(st))
        shapes = {p: f for p, f in self.shapes(st).items() if p in st.mem and p not in stale and self.same(st.mem[p], f(lambda q: self.read(st, q)))}
        for p in sorted(st.mem, key=self.rank):
            v = st.mem[p]
            if p[0] == "fld" and p[1] == ("ghost", "head"):
                new[p] = subst(v, m, {})
                continue
            if p in stale:
                st.mem[p] = v = ("V", ("raw", p)) if has_v(v) else ("raw", p)
            if self.root(p)[0] not in ("this", "ghost", "var", "tmp", "arg"):
                continue
            if p in shapes:
                continue
            old = None
            if entry is not None and (p in entry.mem or self.root(p)[0] == "this"):
                old = self.read(entry, p)
            if v[0] not in ("bool", "str") and not self.constant_field(p):
                moved = old is not None and old != v and (v[0] == "num" or old[0] == "wide" or not has_v(v) and T.const_diff(v, old) is not None)
                if moved or p in drop:
                    drop.add(p)
                    new[p] = ("wide", p)
                    continue
            if v[0] in ("bool", "str") or v[0] == "num" and (not head or self.constant_field(p) or self.root(p)[0] not in ("this", "var") or self.root(p) in self.enumvars):
                new[p] = v
                continue
            r = subst(v, m, {}) if size(v) <= self.SIZE and v[0] != "num" else None
            if r is None or self.opaque_parts(r):
                name(v, repr(p))
                r = m[v]
            new[p] = r
        for p, f in shapes.items():
            new[p] = f(lambda q: new.get(q) or st.mem.get(q))
        facts = {}
        if not head:
            for c, b in st.facts.items():
                if size(c) > self.SIZE or find_all(c, lambda y: y[0] in ("var", "tmp", "wide")):
                    continue
                rc = subst(c, m, {})
                if not self.opaque_parts(rc):
                    rc = subst(rc, back, {})
                    facts[T.norm_cond(rc) if rc[0] in ("le", "fle", "flt", "eq") else rc] = b
        st.mem = {p: subst(v, back, {}) for p, v in new.items()}
        st.facts = facts
        key = (frozenset(st.mem.items()), frozenset(facts.items()))
        return st, key

    def same(self, a, b):
        return a == b or N.nf(a) == N.nf(b)

    def opaque_parts(self, c):
        out = []
        st = [c]
        seen = set()
        while st:
            y = st.pop()
            if not isinstance(y, tuple) or y in seen or not y:
                continue
            seen.add(y)
            if self.fresh_kind(y) is not None or y[0] == "wide":
                out.append(y)
                continue
            st.extend(y)
        return out

    # ------------------------------------------------------------ loops
    def frame_opened(self, fr):
        fr.id = "d%d" % fr.depth        # locals of calls that have ended are gone, so the depth tells frames apart

    def loop(self, st, cond, body, inc, node):
        """the outcomes from one canonical state are explored once"""
        keep = {self.root(p) for p in st.mem if self.root(p)[0] in ("var", "tmp")}
        st.trace = []
        first, key = self.canon(st.fork(), keep, set(), None)
        k = (id(node), st.frame.id, st.frame.fn.get("m"), st.frame.dyn, repr(st.frame.this), key)
        outs = self.memo.get(k)
        if outs is None:
            outs = self.memo[k] = self.explore(first, keep, cond, body, inc, node)
        res = []
        for o in outs:
            y = o.fork()
            y.frame, y.env = st.frame, dict(st.env)
            res.append(y)
        return res

    def explore(self, first, keep, cond, body, inc, node):
        self.loops += 1
        drop = set()
        entry = first.fork()
        work, seen, exits = [first], set(), {}
        while work:
            s = work.pop()
            s, key = self.canon(s, keep, drop, entry)
            if key in seen:
                continue
            seen.add(key)
            k = (id(node), first.frame.id, first.frame.fn.get("m"), first.frame.dyn, repr(first.frame.this), key)
            r = self.steps.get(k)
            if r is None:
                self.heads += 1
                if self.heads > self.MAXHEADS:
                    raise Undecided("too many abstract states")
                r = self.steps[k] = self.step(s, cond, body, inc, node)
            for x in r[0]:
                exits.setdefault((x.status, x.ret, x.thrown, frozenset(x.mem.items()), frozenset(x.facts.items())), x)
            for x in r[1]:
                y = x.fork()
                y.frame, y.env = first.frame, dict(first.env)
                work.append(y)
        out = {}
        for x in exits.values():
            y = x.fork()
            y.trace = []
            ret, thrown = x.ret, x.thrown
            if ret is not None and ret[0] not in ("void", "bool", "num"):
                y.mem[("ghost", "ret")] = ret
            y, key = self.canon(y, keep, set(), None, head=False)
            if ("ghost", "ret") in y.mem:
                y.ret = y.mem.pop(("ghost", "ret"))
            k = (y.status, y.ret, thrown, key)
            out.setdefault(k, y)
        return list(out.values())

    def step(self, s, cond, body, inc, node):
        """one iteration from a canonical state: (states that leave the loop, states that come back)"""
        head = s.fork()
        keep = {self.root(p) for p in head.mem if self.root(p)[0] in ("var", "tmp")}
        mine = self.enter(s, node)
        s.mem.update(mine)
        leave, back = [], {}

        def strip(x):
            for p in mine:
                x.mem.pop(p, None)
            return x
        for s1, b in cond(s):
            if s1.status != "normal" or not b:
                leave.append(strip(s1))
                continue
            bound = dict(s1.facts)
            for s2 in body(s1):
                if s2.status == "break":
                    s2.status = "normal"
                    leave.append(strip(s2))
                elif s2.status in ("normal", "continue"):
                    s2.status = "normal"
                    for s3 in (inc(s2) if inc else [s2]):
                        if s3.status != "normal":
                            leave.append(strip(s3))
                            continue
                        self.edges += 1
                        self.back_edge(head, s3, node, bound)
                        y, key = self.canon(strip(s3), keep, set(), None)
                        back.setdefault(key, y)
                else:
                    leave.append(strip(s2))
        return leave, list(back.values())


def size(t):
    n = 0
    st = [t]
    while st:
        y = st.pop()
        if isinstance(y, tuple):
            n += 1
            st.extend(y)
            if n > 1000:
                return n
    return n
