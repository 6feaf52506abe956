"""Path-sensitive data-flow summaries with value numbering.

A function of the resolved program is summarised as the list of its abstract paths.  A path carries the branch facts it
was taken under, the values it leaves in memory (canonical terms over the initial values), the value it returns, and an
ordered trace of the calls into opaque (virtual / not available) code and of the writes to non-local memory.  Calls to
functions of the repository are inlined, so extracting a helper does not change a summary; loops are summarised once, by
their effect on every modified place as a function of the iteration number, so rewriting a loop does not either.
Nothing is executed and no solver is used: branch facts are compared syntactically after normalisation only."""
import re, sys
from terms import *
import terms as T
from program import AnalysisBroken, strip_targs

sys.setrecursionlimit(20000)


# opaque functions whose listed parameters are written and not read
OUTS = {}


# writable parts of a vector or matrix -> the value read from them
VIEWS = {"blkp": "blk", "blkp2": "blk2", "rowp": "row", "colp": "col"}


class Undecided(Exception):
    pass


LOGLVL = ("glob", "trajopt_common::gLogLevel")


INT_T = re.compile(r"^(const )?(unsigned |signed )?(int|long|short|char|long long|unsigned|bool|unsigned int|unsigned long|"
                   r"unsigned char|signed char|unsigned short|unsigned long long|std::size_t|size_t)( int)?$")


def is_int_t(t):
    return bool(t) and bool(INT_T.match(t.replace("&", "").strip()))


def is_flt_t(t):
    return bool(t) and t.replace("const ", "").replace("&", "").strip() in ("double", "float", "long double")


EIG = re.compile(r"^(const )?Eigen::(Matrix|Array|Map|Ref|Block|VectorBlock|CwiseBinaryOp|CwiseUnaryOp|CwiseNullaryOp|Transpose|Product|"
                 r"SparseMatrix|SparseVector|ArrayWrapper|MatrixWrapper|Diagonal|Select|NoAlias|MatrixBase|ArrayBase|DenseBase|"
                 r"SparseView|SparseMatrixBase|CwiseUnaryView|VectorwiseOp|Reverse|DiagonalWrapper|CommaInitializer|Ones|Inverse|EigenBase|Replicate|PlainObjectBase|WithFormat)\b")


def is_view_t(t):
    """objects that refer to the storage of another one"""
    return bool(re.match(r"^Eigen::(Ref<Eigen::|Block<Eigen::|VectorBlock<Eigen::|ArrayWrapper<Eigen::)", t))


def is_eigen(t):
    return bool(t) and bool(EIG.match(t))


def is_array_t(t):
    return bool(t) and ("Eigen::Array" in t[:30] or "ArrayWrapper" in t.split("<")[0] or "ArrayXpr" in t or
                        ("ArrayWrapper" in t and "MatrixWrapper" not in t.split("<")[0] and "Eigen::MatrixWrapper" not in t[:25]))


def is_ptr_t(t):
    return bool(t) and (t.endswith("*") or t.endswith("*const") or "std::shared_ptr" in t[:24] or "std::unique_ptr" in t[:24] or
                        "std::weak_ptr" in t[:24])


def is_seq_t(t):
    return bool(t) and re.match(r"^(const )?std::(vector|array|deque|list|initializer_list)<", t) is not None


class St:
    __slots__ = ("mem", "env", "facts", "trace", "status", "ret", "frame", "thrown")

    def __init__(self):
        self.mem = {}
        self.env = {}
        self.facts = {}
        self.trace = []
        self.status = "normal"
        self.ret = None
        self.frame = None
        self.thrown = None

    def fork(self):
        s = St()
        s.mem = dict(self.mem)
        s.env = dict(self.env)
        s.facts = dict(self.facts)
        s.trace = list(self.trace)
        s.status = self.status
        s.ret = self.ret
        s.frame = self.frame
        s.thrown = self.thrown
        return s


class Frame:
    n = 0

    def __init__(self, fn, this=None, parent=None, dyn=None):
        Frame.n += 1
        self.id = Frame.n
        self.fn = fn
        self.this = this
        self.parent = parent       # lexical parent (lambdas)
        self.dyn = dyn             # dynamic class of *this when known
        self.file = fn.get("file", "") if fn else ""
        self.depth = 0


class Event:
    """trace entry"""
    __slots__ = ("kind", "name", "obj", "args", "val", "file", "line", "body", "q", "trip", "m", "argp", "objp", "depth", "before")

    def __init__(self, kind, **kw):
        self.kind = kind
        for k in self.__slots__[1:]:
            setattr(self, k, kw.get(k))

    def __repr__(self):
        if self.kind == "call":
            return "call %s.%s(%s) @%s" % (show(self.obj) if self.obj else "", self.name, ", ".join(show(a) if a else "-" for a in self.args), self.line)
        if self.kind == "write":
            return "write %s := %s @%s" % (show(self.obj), show(self.val), self.line)
        if self.kind == "loop":
            return "loop %s<%s {%s}" % (show(self.q), show(self.trip), " | ".join("%s: %s" % ([(show(c), b) for c, b in f.items()], t) for f, t, s in self.body))
        return "%s %s @%s" % (self.kind, self.name, self.line)


class Path:
    def __init__(self, st):
        self.mem, self.facts, self.trace, self.status, self.ret, self.thrown = st.mem, st.facts, st.trace, st.status, st.ret, st.thrown
        self.st = st


PURE_STD = ("std::", "Eigen::", "boost::", "Json::", "__gnu_cxx::", "console_bridge::")


class Engine:
    def __init__(self, prog, opaque=(), inline=None, max_depth=12, max_paths=3000, watch=(), dyn=None, implicit_throw=None, noinline=None):
        self.P = prog
        self.opaque = set(opaque)       # qualified names never inlined
        self.noinline = noinline        # predicate on function record
        self.max_depth = max_depth
        self.max_paths = max_paths
        self.watch = set(watch)         # external functions recorded in the trace
        self.dyn = dyn or {}            # place -> dynamic class name
        self.cnt = 0
        self.lambdas = {}
        self.visited = set()            # functions inlined or analysed (for evidence)
        self.unknown_calls = {}
        self.loops = 0
        self.loopstack = []
        self.tables = {}
        self.nodes = 0
        self.budget = 3000000

    # ------------------------------------------------------------------ memory
    def fresh(self):
        self.cnt += 1
        return self.cnt

    def read(self, st, place):
        if place is None:
            return ("unk", self.fresh())
        mem = st.mem
        if place in mem:
            v = mem[place]
        elif place[0] == "fld":
            v = self.project_read(st, place)
        elif place[0] == "elm":
            v = elem(self.read(st, place[1]), place[2])
        elif place[0] == "elm2":
            v = elem2(self.read(st, place[1]), place[2], place[3])
        elif place[0] == "tie":
            return ("unk", self.fresh())
        elif place[0] in VIEWS:
            b = self.read(st, place[1])
            b = b if has_v(b) or b[0] == "num" else ("V", b)
            v = ("V", (VIEWS[place[0]], b) + place[2:])
        else:
            v = place
        # sub-entries written after
        subs = [(p, x) for p, x in mem.items() if p[0] == "fld" and p != place and self.is_sub(p, place)]
        if subs:
            # deepest last
            for p, x in sorted(subs, key=lambda px: self.plen(px[0])):
                v = self.set_path(v, self.relpath(p, place), x)
        return v

    def plen(self, p):
        n = 0
        while p[0] == "fld":
            p = p[1]
            n += 1
        return n

    def is_sub(self, p, anc):
        while p[0] == "fld":
            p = p[1]
            if p == anc:
                return True
        return False

    def relpath(self, p, anc):
        out = []
        while p != anc:
            out.append(p[2])
            p = p[1]
        return list(reversed(out))

    def set_path(self, v, path, x):
        if not path:
            return x
        return with_field(v, path[0], self.set_path(project(v, path[0]), path[1:], x))

    def project_read(self, st, place):
        # nearest ancestor in mem
        p = place
        path = []
        while p[0] == "fld":
            path.append(p[2])
            p = p[1]
            if p in st.mem:
                v = st.mem[p]
                for n in reversed(path):
                    v = project(v, n)
                return v
        if p[0] in ("elm", "elm2"):
            v = self.read(st, p)
            for n in reversed(path):
                v = project(v, n)
            return v
        return place

    def root(self, p):
        while p[0] in ("fld", "elm", "elm2", "ixp") or p[0] in VIEWS:
            p = p[1]
        return p

    def is_local(self, p):
        return self.root(p)[0] in ("var", "tmp")

    def write(self, st, place, v, line=None, ev=True):
        if place is None:
            return
        k = place[0]
        if ev and not self.is_local(place) and k != "tie":
            before = self.read(st, place) if k != "blkp" else None
            st.trace.append(Event("write", obj=place, val=v, line=line, file=st.frame.file if st.frame else None, before=before))
        if k == "elm":
            base = self.read(st, place[1])
            self.write(st, place[1], self.store1(base, (place[2],), v), line, False)
            return
        if k == "elm2":
            base = self.read(st, place[1])
            self.write(st, place[1], store(base, (place[2], place[3]), v), line, False)
            return
        if k == "blkp":      # ('blkp', base, off, n) one-dimensional block
            base = self.read(st, place[1])
            r = ("r", self.fresh())
            n = place[3]
            self.write(st, place[1], store(base, (add(place[2], r),), elem(v, r) if has_v(v) or v[0] == "num" else ("elm", v, r), quants=((r, n),)), line, False)
            return
        if k == "blkp2":     # ('blkp2', base, r0, c0, nr, nc)
            base = self.read(st, place[1])
            r, c = ("r", self.fresh()), ("r", self.fresh())
            self.write(st, place[1], store(base, (add(place[2], r), add(place[3], c)), elem2(v, r, c), quants=((r, place[4]), (c, place[5]))), line, False)
            return
        if k in ("rowp", "colp"):
            base = self.read(st, place[1])
            r = ("r", self.fresh())
            idx = (place[2], r) if k == "rowp" else (r, place[2])
            n = (cols_of if k == "rowp" else rows_of)(base)
            self.write(st, place[1], store(base, idx, elem(v, r) if has_v(v) or v[0] == "num" else ("elm", v, r), quants=((r, n),)), line, False)
            return
        if k == "fld" and place[1][0] in ("elm", "elm2", "fld"):
            # field of an element: rewrite the element
            p, path = place, []
            while p[0] == "fld":
                path.append(p[2])
                p = p[1]
            if p[0] in ("elm", "elm2"):
                v0 = self.read(st, p)
                self.write(st, p, self.set_path(v0, list(reversed(path)), v), line, False)
                return
        for p in [p for p in st.mem if p[0] == "fld" and p != place and self.is_sub(p, place)]:
            del st.mem[p]
        st.mem[place] = v

    def store1(self, base, idx, v):
        # element overwrite in a sequence of known shape
        if base[0] == "seq" and len(idx) == 1 and idx[0][0] == "num":
            i = idx[0][1]
            if all(s[0] == "one" for s in base[1]) and 0 <= i < len(base[1]):
                segs = list(base[1])
                segs[int(i)] = ("one", v)
                return ("seq", tuple(segs))
        if base[0] == "seq" and len(idx) == 1 and base[1] and base[1][-1][0] == "one":
            # back() of a sequence with symbolic prefix
            pre = NUM0
            for s in base[1][:-1]:
                pre = add(pre, seg_size(s))
            if const_diff(pre, idx[0]) == 0:
                return ("seq", base[1][:-1] + (("one", v),))
        return store(base, idx, v)

    def havoc(self, st, place, why=""):
        if place is None or place[0] in ("tie",):
            return
        while place[0] in VIEWS:
            place = place[1]
        if place[0] in ("elm", "elm2") or (place[0] == "fld" and place[1][0] in ("elm", "elm2")):
            self.write(st, place, ("hv", self.fresh(), self.read(st, place)), ev=False)
            return
        old = self.read(st, place)
        self.write(st, place, self._hv(old, place), ev=False)

    def _hv(self, old, place):
        v = ("hv", self.fresh(), place)
        return ("V", v) if has_v(old) else v

    # ------------------------------------------------------------------ facts
    def decide(self, c, st):
        if c[0] == "bool":
            return c[1]
        f = st.facts.get(c)
        if f is not None:
            return f
        if c[0] == "not":
            d = self.decide(c[1], st)
            return None if d is None else not d
        if c[0] in ("le", "eq", "flt", "fle"):
            p = c[1]
            for (g, b) in st.facts.items():
                r = self.implied(c, p, g, b)
                if r is not None:
                    return r
        return None

    def implied(self, c, p, g, b):
        k = c[0]
        gk = g[0]
        if gk == "not":
            return self.implied(c, p, g[1], not b)
        if gk not in ("le", "eq", "flt", "fle"):
            return None
        q = g[1]
        d = const_diff(p, q)       # p = q + d
        s = None
        if d is None:
            s = const_diff(p, neg(q))   # p = -q + s
            if s is None:
                return None
        if gk == "eq" and b:
            # q == 0
            v = d if d is not None else s
            return {"le": v <= 0, "fle": v <= 0, "flt": v < 0, "eq": v == 0}[k]
        if gk == "le" and b:
            if d is not None:           # p <= d
                if k in ("le", "fle") and d <= 0:
                    return True
                if k == "flt" and d < 0:
                    return True
                if k == "eq" and d < 0:
                    return False
            else:                       # p >= s
                if k in ("le", "fle") and s > 0:
                    return False
                if k == "flt" and s >= 0:
                    return False
                if k == "eq" and s > 0:
                    return False
        if gk in ("flt", "fle") and b:
            strict = gk == "flt"
            if d is not None:           # p < d or <=
                if k in ("le", "fle") and d <= 0:
                    return True
                if k == "flt" and (d < 0 or (d == 0 and strict)):
                    return True
                if k == "eq" and (d < 0 or (d == 0 and strict)):
                    return False
            else:                       # p > s or >=
                if k in ("le", "fle") and (s > 0 or (s == 0 and strict)):
                    return False
                if k == "flt" and s >= 0:
                    return False
                if k == "eq" and (s > 0 or (s == 0 and strict)):
                    return False
        return None

    def split(self, st, c):
        """-> [(state, bool)]"""
        if c[0] == "not":
            return [(s, not b) for s, b in self.split(st, c[1])]
        d = self.decide(c, st)
        if d is not None:
            return [(st, d)]
        if c[0] == "same" or c[0] == "eq":
            pass
        s1, s2 = st.fork(), st
        s1.facts[c] = True
        if c[0] == "le":
            s2.facts[norm_cond(("le", sub(NUM1, c[1])))] = True
        else:
            s2.facts[c] = False
        return [(s1, True), (s2, False)]

    # ------------------------------------------------------------------ entry
    def summarize(self, fn, dyn=None, pre=None, this=("this",)):
        """abstract paths of a function of the program"""
        st = St()
        fr = Frame(fn, this=this if ("cls" in fn and not fn.get("st")) else None, dyn=dyn or fn.get("cls"))
        st.frame = fr
        for i, p in enumerate(fn["params"]):
            if p["pk"] in ("r", "cr", "rr"):
                st.env[(fr.id, p["d"])] = ("arg", i, p["n"])
            else:
                pl = ("var", p["d"], fr.id)
                st.env[(fr.id, p["d"])] = pl
                v = ("arg", i, p["n"])
                st.mem[pl] = vwrap(v) if is_eigen(p["t"]) else v
        self.visited.add(fn["m"])
        if pre:
            pre(st, self)
        sts = self.run_body(st, fn)
        out = []
        for s in sts:
            if s.status == "normal":
                s.status = "return"
            out.append(Path(s))
        return out

    def run_body(self, st, fn):
        sts = [st]
        if fn.get("ctor"):
            sts = self.ctor_inits(st, fn)
        out = []
        for s in sts:
            if s.status != "normal":
                out.append(s)
                continue
            out += self.ex(fn["body"], s)
        return out

    def ctor_inits(self, st, fn):
        this = st.frame.this
        sts = [st]
        for ini in fn.get("inits", ()):
            nxt = []
            for s in sts:
                if s.status != "normal":
                    nxt.append(s)
                    continue
                if "f" in ini:
                    pl = ("fld", this, ini["f"])
                    if ini["e"] is None:
                        nxt.append(s)
                        continue
                    for s2, v in self.rv(ini["e"], s):
                        if s2.status == "normal":
                            v = self.coerce(s2, v, ini["e"])
                            ftype = ini["e"].get("t") if isinstance(ini["e"], dict) else None
                            self.write(s2, pl, vwrap(v) if is_eigen(ftype) else v, ev=False)
                        nxt.append(s2)
                else:
                    e = ini["e"]
                    if isinstance(e, dict) and e.get("k") in ("ctor",) and e.get("m") in self.P.funcs and self.may_inline(self.P.funcs[e["m"]], s):
                        nxt += self.inline_ctor(e, s, this)
                    else:
                        nxt.append(s)
            sts = nxt
        return sts

    def coerce(self, st, v, e):
        return v

    # ------------------------------------------------------------------ statements
    def ex(self, n, st):
        """-> list of states"""
        self.nodes += 1
        if self.nodes > self.budget:
            raise Undecided("budget exhausted")
        if n is None or st.status != "normal":
            return [st]
        k = n["k"]
        if k == "blk":
            sts = [st]
            for c in n["b"]:
                nxt = []
                for s in sts:
                    nxt += self.ex(c, s) if s.status == "normal" else [s]
                sts = self.merge(nxt)
            return sts
        if k == "decl":
            sts = [st]
            for v in n["v"]:
                nxt = []
                for s in sts:
                    nxt += self.declare(v, s) if s.status == "normal" else [s]
                sts = nxt
            return sts
        if k == "expr":
            return [s for s, _ in self.rv(n["e"], st, discard=True)]
        if k == "nop":
            return [st]
        if k == "if":
            sts = self.ex(n["init"], st) if n.get("init") else [st]
            out = []
            for s in sts:
                ss = self.declare(n["cv"], s) if n.get("cv") else [s]
                for s1 in ss:
                    for s2, b in self.cond(n["c"], s1):
                        if s2.status != "normal":
                            out.append(s2)
                        elif b:
                            out += self.ex(n["t"], s2)
                        else:
                            out += self.ex(n.get("e"), s2)
            return out
        if k == "ret":
            if n.get("e") is None:
                st.status = "return"
                st.ret = None
                return [st]
            fn = st.frame.fn
            out = []
            if fn and fn.get("rt", "").rstrip().endswith("&"):
                for s, p, v in self.lv(n["e"], st):
                    if s.status == "normal":
                        s.ret = ("lvref", p) if p is not None else v
                        s.status = "return"
                    out.append(s)
                return out
            for s, v in self.rv(n["e"], st):
                if s.status == "normal":
                    s.ret = v
                    s.status = "return"
                    s.trace.append(Event("ret", val=v, line=n.get("ln"), file=s.frame.file, depth=s.frame.depth))
                out.append(s)
            return out
        if k == "break" or k == "continue":
            st.status = k
            return [st]
        if k == "for":
            sts = self.ex(n["init"], st) if n.get("init") else [st]
            out = []
            for s in sts:
                if s.status != "normal":
                    out.append(s)
                    continue
                inc = (lambda s_, e=n.get("inc"): [x for x, _ in self.rv(e, s_, discard=True)] if e else [s_])
                cnd = (lambda s_, e=n.get("c"): self.cond(e, s_) if e else [(s_, True)])
                bod = (lambda s_, e=n["b"]: self.ex(e, s_))
                out += self.loop(s, cnd, bod, inc, n)
            return out
        if k == "while":
            cnd = (lambda s_: self.cond(n["c"], s_))
            bod = (lambda s_: self.ex(n["b"], s_))
            return self.loop(st, cnd, bod, None, n)
        if k == "do":
            # body once, then while
            sts = self.ex(n["b"], st)
            out = []
            for s in sts:
                if s.status == "continue":
                    s.status = "normal"
                if s.status == "break":
                    s.status = "normal"
                    out.append(s)
                    continue
                if s.status != "normal":
                    out.append(s)
                    continue
                out += self.loop(s, lambda s_: self.cond(n["c"], s_), lambda s_: self.ex(n["b"], s_), None, n)
            return out
        if k == "rfor":
            return self.range_for(n, st)
        if k == "switch":
            return self.switch(n, st)
        if k == "try":
            return self.try_(n, st)
        if k == "omp":
            return self.ex(n.get("b"), st)
        if k in ("case", "default"):
            return self.ex(n["s"], st)
        if k == "var":
            return self.declare(n, st)
        if k == "unkstmt":
            return [st]
        # an expression in statement position
        return [s for s, _ in self.rv(n, st, discard=True)]

    def merge(self, sts):
        """drop states that are equal in everything observable (joins of branches that did the same)"""
        if len(sts) <= 1:
            return sts
        if len(sts) > self.max_paths:
            raise Undecided("too many paths (%d)" % len(sts))
        return sts

    def declare(self, v, st):
        fr = st.frame
        pl = ("var", v["d"], fr.id)
        if v.get("binds") is not None:
            return self.declare_binds(v, st)
        if v.get("static") or v.get("tls"):
            pl = ("static", v["n"], v["d"])
            st.env[(fr.id, v["d"])] = pl
            return [st]
        e = v.get("e")
        if (v.get("ref") or is_view_t(v["t"])) and e is not None:
            out = []
            for s, p, val in self.lv(e, st):
                if s.status == "normal":
                    if p is None:
                        p = pl
                        s.mem[p] = val
                    s.env[(fr.id, v["d"])] = p
                out.append(s)
            return out
        st.env[(fr.id, v["d"])] = pl
        if e is None:
            st.mem[pl] = self.default_value(v["t"], st)
            return [st]
        out = []
        for s, val in self.rv(e, st):
            if s.status == "normal":
                if is_eigen(v["t"]) and not has_v(val) and val[0] != "num":
                    val = vwrap(val)
                for p in [p for p in s.mem if p[0] == "fld" and self.is_sub(p, pl)]:
                    del s.mem[p]
                s.mem[pl] = val
            out.append(s)
        return out

    def declare_binds(self, v, st):
        fr = st.frame
        out = []
        for s, p, val in self.lv(v["e"], st):
            if s.status != "normal":
                out.append(s)
                continue
            base = ("var", v["d"], fr.id)
            if p is not None and (v.get("ref") or True):
                val = self.read(s, p)
            if not v.get("ref"):
                s.mem[base] = val
                p = base
            elif p is None:
                s.mem[base] = val
                p = base
            names = ["first", "second"]
            for i, b in enumerate(v["binds"]):
                f = b.get("f") or (names[i] if i < 2 else "get%d" % i)
                s.env[(fr.id, b["d"])] = ("fld", p, f)
            out.append(s)
        return out

    def default_value(self, t, st):
        if is_seq_t(t):
            return seq()
        if is_eigen(t):
            return ("V", ("sized", NUM0))
        if t.startswith("std::basic_string"):
            return ("str", "")
        if is_ptr_t(t) and not t.endswith("*"):
            return NULL
        if t.startswith("std::map") or t.startswith("std::unordered_map") or t.startswith("std::set"):
            import models
            return models.empty_map(t)
        return ("undef", self.fresh())

    # ------------------------------------------------------------------ switch / try
    def switch(self, n, st):
        out = []
        sts = self.ex(n["init"], st) if n.get("init") else [st]
        body = n["b"]["b"] if n["b"] and n["b"]["k"] == "blk" else [n["b"]]
        # flatten nested case labels
        items = []   # (labels, stmt)

        def flat(s):
            labels = []
            while s is not None and s["k"] in ("case", "default"):
                labels.append(s.get("v") if s["k"] == "case" else "default")
                s = s["s"]
            items.append((labels, s))
        for c in body:
            flat(c)
        for s0 in sts:
            for s1, val in self.rv(n["c"], s0):
                if s1.status != "normal":
                    out.append(s1)
                    continue
                # entry points
                cur = [s1]
                default_at = None
                for i, (labels, _) in enumerate(items):
                    for l in labels:
                        if l == "default":
                            default_at = i
                            continue
                        nxt = []
                        for s2 in cur:
                            lv = self.rv(l, s2)[0][1]
                            for s3, b in self.split(s2, ceq(val, lv)):
                                if b:
                                    out += self.run_items(items, i, s3)
                                else:
                                    nxt.append(s3)
                        cur = nxt
                for s2 in cur:
                    if default_at is not None:
                        out += self.run_items(items, default_at, s2)
                    else:
                        out.append(s2)
        return out

    def run_items(self, items, i, st):
        sts = [st]
        done = []
        for _, s in items[i:]:
            nxt = []
            for x in sts:
                for y in self.ex(s, x):
                    (nxt if y.status == "normal" else done).append(y)
            sts = nxt
            if not sts:
                break
        for y in done:
            if y.status == "break":
                y.status = "normal"
        return done + sts

    def try_(self, n, st):
        st.trace.append(Event("try", line=n.get("ln"), file=st.frame.file, name=tuple(h["t"] for h in n["h"])))
        out = []
        fr0 = st.frame
        for s in self.ex(n["b"], st):
            if s.status != "throw":
                if s.status != "normal" or True:
                    s.trace.append(Event("endtry", line=n.get("ln"), file=s.frame.file))
                out.append(s)
                continue
            t = s.thrown or ""
            for h in n["h"]:
                ht = h["t"].replace("const ", "").replace("&", "").strip()
                tt = t.replace("const ", "").replace("&", "").strip()
                if h["t"] == "..." or ht == tt or (ht == "std::exception" and tt.startswith("std::")):
                    s.status = "normal"
                    s.frame = fr0
                    s.trace.append(Event("catch", line=h.get("ln"), file=s.frame.file, name=h["t"]))
                    if "d" in h:
                        s.env[(s.frame.id, h["d"])] = ("var", h["d"], s.frame.id)
                    for s2 in self.ex(h["b"], s):
                        out.append(s2)
                    break
            else:
                out.append(s)
        return out

    # ------------------------------------------------------------------ loops
    def range_for(self, n, st):
        out = []
        sts = self.ex(n["init"], st) if n.get("init") else [st]
        for s0 in sts:
            for s, p, val in self.lv(n["r"], s0):
                if s.status != "normal":
                    out.append(s)
                    continue
                if p is None:
                    p = ("tmp", self.fresh())
                    s.mem[p] = val
                cv = self.read(s, p)
                if cv[0] == "seq" and cv[1] and all(x[0] == "one" for x in cv[1]) and len(cv[1]) <= 6:
                    # literal list: unroll
                    cur = [s]
                    for i, x in enumerate(cv[1]):
                        nxt = []
                        for c in cur:
                            for d in self.bind_loop_var(n["v"], c, p, num(i)):
                                for e in self.ex(n["b"], d):
                                    if e.status == "continue":
                                        e.status = "normal"
                                    if e.status == "break":
                                        e.status = "normal"
                                        out.append(e)
                                    elif e.status == "normal":
                                        nxt.append(e)
                                    else:
                                        out.append(e)
                        cur = nxt
                    out += cur
                    continue
                mt = strip_targs(n["r"].get("t", "")).replace("const ", "").strip(" &")
                ismap = mt if mt in ("std::map", "std::unordered_map", "std::set", "std::unordered_set") else None
                # hidden index
                hid = ("var", "rf%s" % self.loop_name(n), s.frame.id)
                s.mem[hid] = NUM0

                def cnd(x, p=p, hid=hid):
                    i = self.read(x, hid)
                    return self.split(x, clt(i, size_of(self.read(x, p)), True))

                def bod(x, p=p, hid=hid):
                    r = []
                    for y in self.bind_loop_var(n["v"], x, p, self.read(x, hid), ismap):
                        r += self.ex(n["b"], y) if y.status == "normal" else [y]
                    return r

                def inc(x, hid=hid):
                    x.mem[hid] = add(self.read(x, hid), NUM1)
                    return [x]
                out += self.loop(s, cnd, bod, inc, n)
        return out

    def loop_name(self, n):
        return self.fresh()

    def bind_loop_var(self, v, st, cont, i, ismap=None):
        ep = ("elm", cont, i)
        if ismap:
            m = self.read(st, cont)
            k = ("mapkey", m, i, ("str", "any" if "unordered" in ismap else "less"))
            ep = ("tmp", self.fresh())
            st.mem[ep] = k if "set" in ismap else ("rec", ("pair",), (("first", k), ("second", elem(m, k))))
        fr = st.frame
        if v.get("binds") is not None:
            base = ep if v.get("ref") else ("var", v["d"], fr.id)
            if not v.get("ref"):
                st.mem[base] = self.read(st, ep)
            names = ["first", "second"]
            for j, b in enumerate(v["binds"]):
                f = b.get("f") or (names[j] if j < 2 else "get%d" % j)
                st.env[(fr.id, b["d"])] = ("fld", base, f)
            return [st]
        if v.get("ref"):
            st.env[(fr.id, v["d"])] = ep
        else:
            pl = ("var", v["d"], fr.id)
            st.env[(fr.id, v["d"])] = pl
            val = self.read(st, ep)
            st.mem[pl] = vwrap(val) if is_eigen(v["t"]) else val
        return [st]

    def loop(self, st, cond, body, inc, node):
        """summarise a loop; returns the states after it"""
        self.loops += 1
        lid = self.fresh()
        self.loopstack.append(lid)
        try:
            return self.loop_(st, cond, body, inc, node, lid)
        finally:
            self.loopstack.pop()

    def loop_(self, st, cond, body, inc, node, lid, seed=({}, {}), rounds=3):
        line = node.get("ln")
        outer = set(st.mem)
        envkeys = set(st.env)

        def one_iter(s):
            """run cond+body+inc once -> (back states, exits[(kind,state)])"""
            backs, exits, condexits = [], [], []
            for s1, b in cond(s):
                if s1.status != "normal":
                    exits.append(s1)
                    continue
                if not b:
                    condexits.append(s1)
                    continue
                for s2 in body(s1):
                    if s2.status == "continue":
                        s2.status = "normal"
                    if s2.status == "normal":
                        backs += [x for x in (inc(s2) if inc else [s2])]
                    else:
                        exits.append(s2)
            return backs, exits, condexits

        def start(mods, ind, bind=None):
            s = st.fork()
            s.trace = []
            for p, kind in mods.items():
                if p in ind:
                    s.mem[p] = ind[p]
                else:
                    if kind == "fldroot":
                        pass
                    for x in [x for x in s.mem if x[0] == "fld" and self.is_sub(x, p)]:
                        del s.mem[x]
                    old = self.read(st, p)
                    ph = ("phi", lid, p)
                    s.mem[p] = ("V", ph) if has_v(old) else ph
            return s

        def is_outer(p):
            r = self.root(p)
            if r[0] in ("var", "tmp", "static"):
                return p in outer or r in outer or any(self.root(x) == r for x in outer) or r[0] == "static"
            return True

        def written(snap, backs, mods):
            """outer places that an iteration modifies beyond the known ones"""
            new = {}
            for b in backs:
                for p, v in b.mem.items():
                    if not is_outer(p):
                        continue
                    if p in snap and snap[p] == v:
                        continue
                    if p in mods:
                        continue
                    if p not in snap and self.read_snap(snap, st, p) == v:
                        continue
                    if p in unchanged and self.same_value(v, snap[p] if p in snap else self.read_snap(snap, st, p)):
                        continue
                    new[p] = "w"
            return new

        def prune(mods):
            # drop sub-places of other modified places
            for p in list(mods):
                if any(self.is_sub(p, q_) for q_ in mods if q_ != p):
                    del mods[p]

        mods, ind0 = dict(seed[0]), dict(seed[1])
        unchanged = set()
        for _ in range(8):
            s = start(mods, ind0)
            snap = dict(s.mem)
            backs, exits, cex = one_iter(s)
            new = written(snap, backs, mods)
            if not new:
                break
            mods.update(new)
            prune(mods)
            self.note_fields(st, mods, backs, lid)
        else:
            raise Undecided("loop does not stabilise")
        while any(("phi", lid, p) in T.PHI_KEEPS for p in mods) and self.note_fields(st, mods, backs, lid):
            backs, exits, cex = one_iter(start(mods, ind0))
        # values that only get element writes keep their shape
        for p in mods:
            self.note_shape(("phi", lid, p), self.read(st, p), [self.read(b, p) for b in backs])
        if any(("phi", lid, p) in T.PHI_SHAPE or any(k[0] == "fld" and k[1] == ("phi", lid, p) for k in T.PHI_SHAPE) for p in mods):
            backs, exits, cex = one_iter(start(mods, ind0))
        # values that every iteration restores do not change
        keep = self.restored(st, mods, backs, lid)
        if keep:
            mods = {p: k for p, k in mods.items() if p not in keep}
            unchanged = set(keep)
            backs, exits, cex = one_iter(start(mods, ind0))
        # induction variables
        q = ("q", lid)
        ind = {p: v for p, v in ind0.items() if p in mods}
        if backs:
            for p in mods:
                if p in ind:
                    continue
                ph = ("phi", lid, p)
                ds = set()
                for b in backs:
                    v = self.read(b, p)
                    d = sub(v, ph) if not has_v(v) and v[0] in ("poly", "num") or v == ph else None
                    if d is None:
                        ds.add(None)
                        break
                    ds.add(d)
                if len(ds) == 1:
                    d = ds.pop()
                    if d is not None and d[0] == "num" and d[1] != 0:
                        a = self.read(st, p)
                        ind[p] = add(a, mul(d, q))
                    elif d is not None and d[0] == "poly" and not any(contains(d, ("phi", lid, m)) for m in mods) and not self.int_like(d):
                        pass
        s = start(mods, ind)
        # trip count
        trip = None
        trip0 = None
        if ind:
            s_probe = s.fork()
            cs = cond(s_probe)
            conds = set()
            for s1, b in cs:
                conds.add((b, tuple(sorted(((c, v) for c, v in s1.facts.items() if s.facts.get(c) is None), key=key))))
            trues = [f for b, f in conds if b]
            if len(trues) == 1 and len(trues[0]) == 1:
                c, v = trues[0][0]
                trip = self.trip_of(c, v, q, lid, mods)
        if trip is not None:
            s.facts[norm_cond(("le", neg(q)))] = True
            s.facts[norm_cond(("le", add(sub(q, trip), NUM1)))] = True
            for fct in list(s.facts):
                if fct[0] == "bool":
                    del s.facts[fct]
        base_facts = set(st.facts)
        extra = set(s.facts)
        snap = dict(s.mem)
        backs, exits, cex = one_iter(s)
        if ind and rounds and self.ahead(st, mods, ind, backs, lid, q):
            mods = {p: k for p, k in mods.items() if not find_all(p, lambda y: y[0] == "phi" and y[1] == lid)}
            return self.loop_(st, cond, body, inc, node, lid, (mods, {p: v for p, v in ind.items() if p in mods}), rounds - 1)
        if ind:
            # a place that only the position of an induction variable names (an iterator's element) shows up here
            new = {p: k for p, k in written(snap, backs, mods).items() if p[0] != "unk"}
            if new:
                if not rounds:
                    raise Undecided("loop does not stabilise")
                mods.update(new)
                prune(mods)
                return self.loop_(st, cond, body, inc, node, lid, (mods, {p: v for p, v in ind.items() if p in mods}), rounds - 1)

        def own_facts(x):
            return tuple(sorted(((c, v) for c, v in x.facts.items() if c not in base_facts and not (c in extra)), key=key))

        pre = {}
        rec = [p for p in mods if not (p in ind and trip is not None)]
        ends_ = [(own_facts(b), b) for b in backs]
        self.loop_sys = (lid, q, trip, [(m, self.read(st, m)) for m in rec], ends_)
        if backs and rec and (exits or trip is None):
            # the values at the start of iteration q, for the index of the first iteration that leaves the loop
            pre = self.solve(rec, st, ends_, q, trip if trip is not None else ("trip", lid), lid, mods, {})
        fexit = None
        if exits or trip is None:
            q3 = ("q", self.fresh())
            alts = tuple((tuple((subst(subst(c, pre), {q: q3}), v) for c, v in f), NUM0) for f, _ in ends_)
            fexit = ("fexit", q3, trip if trip is not None else ("none",), alts)
        n_trip = trip if trip is not None else fexit
        self.loop_sys = (lid, q, n_trip) + self.loop_sys[3:]
        alts_trace = []
        for b in backs:
            alts_trace.append(({c: v for c, v in own_facts(b)}, b.trace, "normal"))
        for x in exits:
            alts_trace.append(({c: v for c, v in own_facts(x)}, x.trace, x.status))
        # after normal completion
        after = st.fork()
        if backs or not exits:
            final = {p: subst(ind[p], {q: n_trip}) for p in mods if p in ind and trip is not None}      # assuming trip >= 0
            pre = self.solve(rec, st, ends_, q, n_trip, lid, mods, final)
            for p in mods:
                val = final[p]
                for x in [x for x in after.mem if x[0] == "fld" and self.is_sub(x, p)]:
                    del after.mem[x]
                after.mem[p] = val
        if pre:
            alts_trace = [({subst(c, pre): v for c, v in f.items()}, [self.subst_event(ev, pre) for ev in t], s_) for f, t, s_ in alts_trace]
        if alts_trace and any(t for _, t, _ in alts_trace):
            after.trace.append(Event("loop", q=q, trip=n_trip, body=alts_trace, line=line, file=st.frame.file))
        # facts from the exit condition in the general loop
        afters = [after]
        if trip is None and (len(cex) == 1 or (exits and 1 < len(cex) <= 4)):
            m = {q: fexit}
            for p in rec:
                m[("phi", lid, p)] = self.read(after, p)
            afters = []
            for n, x in enumerate(cex):
                a = after.fork() if n < len(cex) - 1 else after
                for c, v in own_facts(x):
                    try:
                        c3 = subst(c, m)
                    except Exception:
                        continue
                    if c3[0] != "bool" and not contains(c3, q):
                        a.facts[c3] = v
                afters.append(a)
        elif trip is not None and exits and backs:
            c3 = norm_cond(("eq", sub(fexit, trip)))
            if c3[0] != "bool":
                after.facts[c3] = True
        result = afters
        infinite = trip is None and not cex
        if infinite:
            result = []
        pre_trace = list(st.trace)
        at_exit = None
        if exits:
            at_exit = {q: fexit}
            for k, v in pre.items():
                at_exit[k] = subst(v, {q: fexit})
        for x in exits:
            y = x
            own = own_facts(x)
            ev = []
            if any(a[1] for a in alts_trace if a[2] == "normal"):
                ev = [Event("loop", q=q, trip=fexit, body=[a for a in alts_trace if a[2] == "normal"], line=line, file=st.frame.file)]
            y.trace = pre_trace + ev + [self.subst_event(z, at_exit) for z in x.trace]
            for p, v in list(y.mem.items()):
                if contains(v, q) or any(contains(v, ("phi", lid, m)) for m in rec):
                    y.mem[p] = subst(v, at_exit)
            if y.ret is not None:
                y.ret = subst(y.ret, at_exit)
            if y.status == "throw" and isinstance(y.thrown if hasattr(y, "thrown") else None, tuple):
                y.thrown = subst(y.thrown, at_exit)
            fs = {}
            for c, v in y.facts.items():
                c2 = subst(c, at_exit) if contains(c, q) or any(contains(c, ("phi", lid, m)) for m in rec) else c
                if c2[0] != "bool":
                    fs[c2] = v
            y.facts = fs
            if y.status == "break":
                y.status = "normal"
            result.append(y)
        return result

    def ev_occurs(self, ev, m):
        if any(contains(x, k) for x in (ev.args or ()) + (ev.val,) if x is not None for k in m):
            return True
        if ev.kind != "loop":
            return False
        return any(contains(ev.trip, k) for k in m) or any(any(contains(c, k) for c in f for k in m) or any(self.ev_occurs(x, m) for x in t) for f, t, s in ev.body)

    def subst_event(self, ev, m):
        if not self.ev_occurs(ev, m):
            return ev
        n = Event(ev.kind, **{k: getattr(ev, k) for k in Event.__slots__[1:]})
        if ev.kind == "loop":
            n.trip = subst(ev.trip, m)
            n.body = [({subst(c, m): v for c, v in f.items()}, [self.subst_event(x, m) for x in t], s) for f, t, s in ev.body]
        else:
            n.args = tuple(None if a is None else subst(a, m) for a in ev.args) if ev.args else ev.args
            n.val = None if ev.val is None else subst(ev.val, m)
        return n

    def solve(self, rec, st, backs, q, trip, lid, mods, final):
        """closed forms of the loop-carried places, those that depend on nothing else first.  Fills in the values after the loop;
        -> the values at the start of iteration q"""
        pre = {}
        todo = list(rec)
        q2 = ("q", self.fresh())
        while todo:
            progress = False
            for p in list(todo):
                ph = ("phi", lid, p)
                ends = [(f, self.read(b, p)) for f, b in backs]
                if pre:
                    ends = [(tuple((subst(c, pre), v) for c, v in f), subst(v0, pre)) for f, v0 in ends]
                others = [("phi", lid, m) for m in todo if m != p]
                if any(contains(v, o) or any(contains(c, o) for c, _ in f) for f, v in ends for o in others):
                    continue
                init = self.read(st, p)
                val = self.summarise(init, ph, ends, q, trip, lid, p, mods)
                if find_all(val, lambda y: y[0] in ("lout", "for?", "lastalt")):
                    continue
                v = self.summarise(init, ph, [(tuple((subst(c, {q: q2}), b) for c, b in f), subst(v0, {q: q2})) for f, v0 in ends], q2, q, lid, p, mods)
                pre[ph] = v[1] if v[0] == "V" else v
                pre[("V", ph)] = v
                final[p] = val
                todo.remove(p)
                progress = True
            if not progress:
                break
        for p in todo:
            init = self.read(st, p)
            ends = [(tuple((subst(c, pre), v) for c, v in f), subst(self.read(b, p), pre)) for f, b in backs]
            final[p] = self.summarise(init, ("phi", lid, p), ends, q, trip, lid, p, mods)
            v = self.recurrence(p, init, q)
            pre[("phi", lid, p)] = v[1] if v[0] == "V" else v
            pre[("V", ("phi", lid, p))] = v
        return pre

    def restored(self, st, mods, backs, lid):
        """places that hold their initial value at the end of every iteration that starts with it (induction on the iterations)"""
        if not backs:
            return set()
        import nf as N
        keep = set(mods)
        while keep:
            m = {}
            for p in keep:
                v0 = self.read(st, p)
                if v0[0] == "seq":
                    v0 = N.simp(v0)
                m[("phi", lid, p)] = v0
            drop = set()
            for p in keep:
                v0 = m[("phi", lid, p)]
                for b in backs:
                    v = self.read(b, p)
                    if v == ("phi", lid, p) or v == ("V", ("phi", lid, p)):
                        continue
                    if v[0] not in ("V", "st", "rec") and not contains(v, ("phi", lid, p)):
                        drop.add(p)
                        break
                    x = N.simp(subst(v, m))
                    if x != v0 and x != vwrap(v0) and x != N.simp(v0):
                        drop.add(p)
                        break
            if not drop:
                return keep
            keep -= drop
        return set()

    def same_value(self, a, b):
        import nf as N

        def n(x):
            x = x[1] if x[0] == "V" else x
            return N.simp(x)
        a = a[1] if a[0] == "V" else a
        b = b[1] if b[0] == "V" else b
        if a == b or n(a) == n(b):
            return True
        if a[0] == "st" and self.same_value(a[1], b):
            # every store puts back what is there
            return all(not find_all(idx, lambda y: y[0] == "str") and
                       n(val) in (n(elem(b, idx[0]) if len(idx) == 1 else elem2(b, *idx)), n(("elm", b, idx[0]) if len(idx) == 1 else ("elm2", b) + idx))
                       for _, _, idx, val in a[2])
        return False

    def injective(self, idx, q):
        for i in idx:
            d = topoly(i)
            if ((q, 1),) in d and not any(contains(m, q) for m in d if m != ((q, 1),)):
                return True
        return False

    def ahead(self, st, mods, ind, backs, lid, q):
        """compaction in place: arrays that iteration q writes at position q or at the value of a counter that starts at 0 or below and grows by
        at most one per iteration.  Positions from q on still have their values from before the loop when iteration q starts"""
        counters = set()
        for p in mods:
            ph = ("phi", lid, p)
            init = self.read(st, p)
            if p not in ind and init[0] == "num" and init[1] <= 0 and all(self.read(b, p) in (ph, add(ph, NUM1)) for b in backs):
                counters.add(ph)
        changed = False
        for p in mods:
            ph = ("phi", lid, p)
            init = self.read(st, p)
            if p in ind or ph in counters or ph in T.PHI_AHEAD or init[0] in ("num", "poly", "bool", "str"):
                continue

            def behind(v):
                if v == ph:
                    return True
                return v[0] == "st" and behind(v[1]) and all(not qs and len(i) == 1 and (i[0] in counters or (const_diff(i[0], q) or 1) <= 0 or i[0] == q) for qs, _, i, _ in v[2])
            if all(behind(self.read(b, p)) for b in backs) and any(self.read(b, p) != ph for b in backs):
                T.PHI_AHEAD[ph] = (init, q)
                changed = True
        return changed

    def note_fields(self, st, mods, backs, lid):
        """which fields of the elements of each loop-carried array of objects the iterations write: the others keep their values.
        -> whether anything changed (the values have to be computed again)"""
        changed = False
        for p in mods:
            if p[0] not in ("fld", "var", "drf"):
                continue
            ph = ("phi", lid, p)
            init = self.read(st, p)
            if init[0] in ("num", "poly", "V", "bool", "str"):
                continue
            names = set()
            for b in backs:
                if names is not None:
                    names = self.written_fields(self.read(b, p), {ph, init}, names)
            old = T.PHI_KEEPS.get(ph)
            if names is None or not names:
                if old is not None:
                    del T.PHI_KEEPS[ph]
                    changed = True
                continue
            if old is None or not names <= old[1]:
                T.PHI_KEEPS[ph] = (init, frozenset(names | (old[1] if old else set())))
                changed = True
        return changed

    def written_fields(self, v, bases, names):
        if v in bases:
            return names
        if v[0] == "st":
            names = self.written_fields(v[1], bases, names)
            for _, _, idx, val in v[2]:
                if names is None or len(idx) != 1 or val[0] != "rec":
                    return None
                b = val[1]
                if not (b in [elem(x, idx[0]) for x in bases] or b[0] == "elm" and b[2] == idx[0] and self.written_fields(b[1], bases, names) is not None):
                    return None
                for n, x in val[2]:
                    sub_ = self.written_fields(x, {project(b, n)}, set()) if n[:1] == "*" else None
                    names = names | ({(n,) + y for y in sub_} if sub_ else {(n,)})
            return names
        if v[0] == "lout" and isinstance(v[-1], int):
            lid, n = v[1], v[-1]
            names = self.written_fields(v[5][n], bases, names)
            for _, ts in v[6]:
                if names is not None:
                    names = self.written_fields(ts[n], bases | {("phi", lid, v[4][n])}, names)
            return names
        return None

    def note_shape(self, ph, init, vals):
        """record that the loop-carried value ph always has the shape of init"""
        def unw(v):
            return v[1] if v[0] == "V" else v

        def keeps(v, x):
            v = unw(v)
            while v[0] == "st":
                v = unw(v[1])
            if v == x:
                return True
            if v[0] == "lout" and isinstance(v[-1], int):
                lid, n = v[1], v[-1]
                return keeps(v[5][n], x) and all(keeps(ts[n], ("phi", lid, v[4][n])) for _, ts in v[6])
            return False
        if vals and all(keeps(v, ph) for v in vals):
            T.PHI_SHAPE[ph] = init
            return
        if vals and all(v == ph or (v[0] == "rec" and v[1] == ph) for v in vals):
            names = set()
            for v in vals:
                if v[0] == "rec":
                    names |= {n for n, _ in v[2]}
            for n in names:
                self.note_shape(("fld", ph, n), project(init, n), [project(v, n) for v in vals])

    def int_like(self, d):
        return False

    def read_snap(self, snap, st, p):
        s = St()
        s.mem = snap
        s.frame = st.frame
        return self.read(s, p)

    def trip_of(self, c, v, q, lid, mods):
        k = c[0]
        if k == "not":
            return self.trip_of(c[1], not v, q, lid, mods)
        if k not in ("le", "eq", "flt", "fle"):
            return None
        p = c[1]
        d = topoly(p)
        mono = ((q, 1),)
        alpha = d.get(mono)
        if alpha is None:
            return None
        beta = sub(p, mul(("num", alpha), q))
        if contains(beta, q) or any(contains(beta, ("phi", lid, m)) for m in mods):
            return None
        if k == "le" and v and alpha > 0:
            if alpha == 1:
                return sub(NUM1, beta)
            return add(app("floordiv", neg(beta), ("num", alpha)), NUM1)
        if k == "eq" and not v:
            if alpha in (1, -1):
                return mul(("num", -alpha), beta)
            return app("div", neg(beta), ("num", alpha))
        if k == "flt" and v and alpha > 0:
            return neg(beta) if alpha == 1 else app("ceildiv", neg(beta), ("num", alpha))
        return None

    def summarise(self, init, ph, ends, q, trip, lid, p, mods):
        others = [("phi", lid, m) for m in mods if m != p]

        def clean(t, allow_ph=False):
            return not any(contains(t, o) for o in others) and (allow_ph or not contains(t, ph))
        vs = [v for _, v in ends]
        if not vs:
            return init
        if all(v == ph or (v[0] == "rec" and v[1] == ph) for v in vs) and any(v != ph for v in vs):
            names = sorted({n for v in vs if v[0] == "rec" for n, _ in v[2]})
            r = init
            good = True
            for n in names:
                fp = ("fld", ph, n)
                # other fields of the same record that change must not be read
                oth = [("fld", ph, m) for m in names if m != n]
                if any(contains(project(v, n), o) for v in vs for o in oth):
                    good = False
            if good:
                for n in names:
                    x = self.summarise(project(init, n), ("fld", ph, n), [(f, project(v, n)) for f, v in ends], q, trip, lid, ("fld", p, n), mods)
                    r = with_field(r, n, x)
                return r
        unw = [v[1] if v[0] == "V" else v for v in vs]
        # appended sequence
        if all(v == ph or (v[0] == "seq" and v[1] and v[1][0] == ("all", ph)) for v in unw):
            alts = tuple((f, v[1][1:] if v != ph else ()) for (f, _), v in zip(ends, unw))
            if all(clean(a) for a in alts):
                return seq_append(init, (("for", q, trip, alts),))
            return self.recurrence(p, init)
        # element stores
        if all(v == ph or (v[0] == "st" and v[1] in (ph, ("V", ph))) for v in unw):
            ok = True
            ents = []
            for (f, _), v in zip(ends, unw):
                if v == ph:
                    continue
                for quants, guards, idx, val in v[2]:
                    if clean(idx) and not clean(val) and not quants and len(v[2]) == 1 and self.injective(idx, q):
                        # in-place map: the element that is written is the only one that is read
                        el = ("elm", ph, idx[0]) if len(idx) == 1 else ("elm2", ph, idx[0], idx[1])
                        elv = ("elm", ("V", ph), idx[0]) if len(idx) == 1 else ("elm2", ("V", ph), idx[0], idx[1])
                        x0 = elem(init, idx[0]) if len(idx) == 1 else elem2(init, idx[0], idx[1])
                        val = subst(val, {el: x0, elv: x0})
                        f = tuple((subst(c, {el: x0, elv: x0}), b_) for c, b_ in f)
                    if not (clean(idx) and clean(val) and clean(quants) and clean(tuple(f))):
                        ok = False
                    ents.append((((q, trip),) + quants, tuple(f) + guards, idx, val))
            wrapped = has_v(init)
            base = init
            if ok:
                b0 = base[1] if base[0] == "V" else base
                if b0[0] == "st":
                    r = ("st", b0[1], b0[2] + tuple(ents))
                else:
                    r = ("st", base if not wrapped else base, tuple(ents))
                return ("V", r) if wrapped else r
        # accumulations
        deltas = []
        for f, v in ends:
            d = sub(v, ("V", ph) if has_v(v) or has_v(init) else ph)
            deltas.append((f, d))
        if all(clean(d) for _, d in deltas):
            if len({d for _, d in deltas}) == 1 and not contains(deltas[0][1], q):
                return add(init, mul(trip, deltas[0][1]))
            t = ("sum", q, trip, tuple((f, d) for f, d in deltas if d != NUM0))
            return add(init, ("V", t) if has_v(init) or any(has_v(d) for _, d in deltas) else t)
        if all(clean(v) for v in vs):
            if len(set(vs)) == 1 and not contains(vs[0], q):
                return vs[0] if trip[0] == "num" and trip[1] > 0 else ("lastof", trip, vs[0], init)
            if not any(f for f, _ in ends) and len(set(vs)) == 1:
                return ("lastof", trip, subst(vs[0], {q: sub(trip, NUM1)}), init)
            r = ("lastalt", q, trip, tuple(ends), init)
            return ("V", r) if has_v(init) else r
        return self.recurrence(p, init)

    def recurrence(self, p, init, upto=None):
        """the value of a place after a loop (or at the start of iteration upto), as a system of recurrences over the places it depends on"""
        lid, q, trip, places, backs = self.loop_sys
        ren = lambda t: t
        if upto is not None:
            q2 = ("q", self.fresh())
            ren = lambda t, m={q: q2}: subst(t, m)
            q, trip = q2, upto
        path = []
        while not any(m == p for m, _ in places):
            if p[0] != "fld":
                raise Undecided("recurrence of a part")
            path.append(p[2])
            p = p[1]
        need = [p]
        for m in need:
            ts = [self.read(b, m) for _, b in backs] + [c for f, _ in backs for c, _ in f]
            for m2, _ in places:
                if m2 not in need and any(contains(t, ("phi", lid, m2)) for t in ts):
                    need.append(m2)
        d = dict(places)
        r = ("lout", lid, q, trip, tuple(need), tuple(d[m] for m in need), tuple((ren(f), tuple(ren(self.read(b, m)) for m in need)) for f, b in backs), 0)
        for n in reversed(path):
            r = ("fld", r, n)
        return ("V", r) if has_v(init) else r

    # ------------------------------------------------------------------ conditions
    def cond(self, e, st):
        """-> [(state, bool)]"""
        if e is None:
            return [(st, True)]
        k = e["k"]
        if k == "un" and e["op"] == "!":
            return [(s, (not b) if s.status == "normal" else b) for s, b in self.cond(e["e"], st)]
        if k == "bin" and e["op"] in ("&&", "||"):
            out = []
            for s, b in self.cond(e["l"], st):
                if s.status != "normal":
                    out.append((s, b))
                elif e["op"] == "&&":
                    out += self.cond(e["r"], s) if b else [(s, False)]
                else:
                    out += [(s, True)] if b else self.cond(e["r"], s)
            return out
        if k == "cast" and e.get("ck") in ("PointerToBoolean", "IntegralToBoolean", "FloatingToBoolean", "UserDefinedConversion"):
            if e["ck"] == "UserDefinedConversion":
                return self.cond(e["e"], st)
            out = []
            for s, v in self.rv(e["e"], st):
                if s.status != "normal":
                    out.append((s, True))
                    continue
                out += self.truth(s, v, e["ck"] == "PointerToBoolean")
            return out
        out = []
        for s, v in self.rv(e, st):
            if s.status != "normal":
                out.append((s, True))
                continue
            out += self.truth(s, v, is_ptr_t(e.get("t", "")))
        return out

    def truth(self, s, v, ptr=False):
        if v[0] not in ("bool", "num") and contains(v, LOGLVL):
            return [(s, False)]         # diagnostics only
        if v[0] == "bool":
            return [(s, v[1])]
        if v[0] == "num":
            return [(s, v[1] != 0)]
        if v == NULL:
            return [(s, False)]
        if ptr:
            c = ceq(v, NULL)
            if c[0] == "bool":
                return [(s, not c[1])]
            return [(x, not b) for x, b in self.split(s, c)]
        if v[0] == "ite":
            out = []
            for x, b in self.split(s, v[1]):
                out += self.truth(x, v[2] if b else v[3])
            return out
        if v[0] == "app" and v[1] == "and":
            cur = [(s, True)]
            for c in v[2:]:
                nxt = []
                for x, b in cur:
                    nxt += self.truth(x, c) if b else [(x, b)]
                cur = nxt
            return cur
        return self.split(s, v)

    # ------------------------------------------------------------------ lvalues
    def lookup(self, st, d):
        fr = st.frame
        while fr is not None:
            p = st.env.get((fr.id, d))
            if p is not None:
                return p
            fr = fr.parent
        return None

    def deref(self, v):
        if v[0] == "addr":
            return v[1]
        if v[0] == "beg":
            return ("elm", v[1], NUM0)
        if v[0] == "poly":
            bs = [a for a in atoms(v) if a[0] == "beg"]
            if len(bs) == 1:
                return ("elm", bs[0][1], sub(v, bs[0]))
        return pointee(v)

    def lv(self, e, st):
        """-> [(state, place or None, value or None)]"""
        k = e["k"]
        if k == "ref":
            if e["dk"] in ("local", "param", "bind", "slocal"):
                p = self.lookup(st, e["d"])
                if p is None:
                    if e["dk"] == "slocal":
                        p = ("static", e["n"], e["d"])
                    else:
                        p = ("var", e["d"], "?")
                return [(st, p, None)]
            if e["dk"] == "global":
                if "cv" in e:
                    return [(st, None, num(int(e["cv"])))]
                v = self.const_table(e["q"], st)
                if v is not None:
                    return [(st, None, v)]
                return [(st, ("glob", e["q"]), None)]
            return [(s, None, v) for s, v in self.rv(e, st)]
        if k == "mem":
            out = []
            for s, p, v in self.objplace(e["b"], st, e.get("arrow")):
                if s.status != "normal":
                    out.append((s, None, None))
                elif p is not None:
                    out.append((s, ("fld", p, e["n"]), None))
                else:
                    out.append((s, None, project(v, e["n"])))
            return out
        if k == "this":
            return [(st, None, T.addr(self.this(st)))]
        if k == "un" and e["op"] == "*":
            out = []
            for s, v in self.rv(e["e"], st):
                out.append((s, self.deref(v) if s.status == "normal" else None, None))
            return out
        if k == "un" and e["op"] in ("++", "--") and not e.get("post"):
            out = []
            for s, p, v in self.lv(e["e"], st):
                if s.status == "normal":
                    x = add(self.read(s, p), NUM1 if e["op"] == "++" else num(-1))
                    self.write(s, p, x, e.get("ln"))
                out.append((s, p, None))
            return out
        if k == "asg":
            out = []
            for s, p in self.assign(e, st):
                out.append((s, p, None))
            return out
        if k == "sub":
            out = []
            for s, b in self.rv(e["b"], st):
                if s.status != "normal":
                    out.append((s, None, None))
                    continue
                for s2, i in self.rv(e["i"], s):
                    if s2.status != "normal":
                        out.append((s2, None, None))
                        continue
                    out.append((s2, self.deref(add(b, i)), None))
            return out
        if k == "cond":
            out = []
            for s, b in self.cond(e["c"], st):
                out += self.lv(e["a"] if b else e["b"], s) if s.status == "normal" else [(s, None, None)]
            return out
        if k == "cast":
            if e.get("x") and e.get("ck") in ("NoOp", "DerivedToBase", "BaseToDerived", "Dynamic", "LValueBitCast", "UncheckedDerivedToBase") and not is_ptr_t(e.get("t", "")):
                return self.lv(e["e"], st)
        if k == "call":
            return self.call(e, st, want_lv=True)
        if k == "ctor" and e["a"] and all(x["k"] == "defarg" for x in e["a"][1:]) and strip_targs(e.get("f", "")) in ("Eigen::Ref::Ref", "Eigen::Map::Map", "Eigen::ArrayWrapper::ArrayWrapper"):
            return self.lv(e["a"][0], st)
        if k == "defarg":
            return self.lv(e["e"], st)
        return [(s, None, v) for s, v in self.rv(e, st)]

    def const_table(self, q, st):
        """the value of a constant sequence of texts or numbers that its initialiser spells out"""
        if q not in self.tables:
            self.tables[q] = None
            g = self.P.globals.get(q)
            if g and g["e"] is not None and g["t"].startswith("const ") and is_seq_t(g["t"]):
                s = St()
                s.frame = Frame({"params": [], "file": g["file"]})
                rs = self.rv(g["e"], s)
                if len(rs) == 1 and rs[0][1][0] == "seq" and all(x[0] == "one" and x[1][0] in ("str", "num") for x in rs[0][1][1]):
                    self.tables[q] = rs[0][1]
        return self.tables[q]

    def this(self, st):
        fr = st.frame
        while fr is not None:
            if fr.this is not None:
                return fr.this
            fr = fr.parent
        return ("this",)

    def objplace(self, e, st, arrow):
        """the object denoted by the base of a member access"""
        if e["k"] == "this":
            return [(st, self.this(st), None)]
        if arrow:
            out = []
            for s, v in self.rv(e, st):
                out.append((s, self.deref(v), None) if s.status == "normal" else (s, None, None))
            return out
        return self.lv(e, st)

    # ------------------------------------------------------------------ rvalues
    def rd(self, s, p, t=None):
        v = self.read(s, p)
        if is_eigen(t) and not has_v(v) and v[0] != "num":
            v = vwrap(v)
        return v

    def rv(self, e, st, discard=False):
        """-> [(state, value)]"""
        self.nodes += 1
        if e is None:
            return [(st, ("void",))]
        k = e["k"]
        if k == "int":
            return [(st, num(int(e["v"])))]
        if k == "float":
            return [(st, numlit(e["v"]))]
        if k == "bool":
            return [(st, TRUE if e["v"] else FALSE)]
        if k == "str":
            return [(st, ("str", e.get("v", "")))]
        if k == "null":
            return [(st, NULL)]
        if k == "this":
            return [(st, T.addr(self.this(st)))]
        if k == "sizeof":
            return [(st, num(int(e["v"])) if "v" in e else ("unk", self.fresh()))]
        if k == "zero":
            if is_seq_t(e.get("t")):
                return [(st, seq())]
            if is_int_t(e.get("t")) or is_flt_t(e.get("t")):
                return [(st, NUM0)]
            return [(st, self.default_value(e.get("t", ""), st))]
        if k == "ref":
            dk = e["dk"]
            if dk == "enum":
                return [(st, num(int(e["v"])))]
            if dk == "func":
                return [(st, ("func", e["q"], e.get("m")))]
            if dk == "global" and "cv" in e:
                return [(st, num(int(e["cv"])))]
            if dk == "global" and e["q"] in self.P.globals and ("glob", e["q"]) not in st.mem:
                g = self.P.globals[e["q"]]
                if g["t"].startswith("const") and g["e"] is not None and (is_flt_t(g["t"]) or is_int_t(g["t"])):
                    return self.rv(g["e"], st)
            if dk in ("other",):
                return [(st, ("sym", e.get("q")))]
            return [(s, self.rd(s, p, e.get("t")) if p is not None else v) for s, p, v in self.lv(e, st)]
        if k in ("mem", "sub"):
            return [(s, (self.rd(s, p, e.get("t")) if p is not None else v) if s.status == "normal" else NULL) for s, p, v in self.lv(e, st)]
        if k == "un":
            return self.unary(e, st)
        if k == "bin":
            return self.binary(e, st)
        if k == "asg":
            return [(s, self.read(s, p) if (not discard and s.status == "normal") else ("void",)) for s, p in self.assign(e, st)]
        if k == "cond":
            out = []
            for s, b in self.cond(e["c"], st):
                out += self.rv(e["a"] if b else e["b"], s) if s.status == "normal" else [(s, NULL)]
            return out
        if k == "cast":
            return self.cast(e, st)
        if k == "copy":
            return [(s, (self.rd(s, p, e.get("t")) if p is not None else v) if s.status == "normal" else NULL) for s, p, v in self.lv(e["e"], st)]
        if k == "call":
            return [(s, (self.rd(s, p, e.get("t")) if p is not None else v) if s.status == "normal" else NULL) for s, p, v in self.call(e, st, discard=discard)]
        if k == "ctor":
            return self.ctor(e, st)
        if k == "init":
            return self.initlist(e, st)
        if k == "lambda":
            n = id(e)
            self.lambdas[n] = (e, st.frame)
            for c in e.get("caps", ()):
                if c.get("init") is not None:
                    for s, v in self.rv(c["init"], st):
                        pl = ("var", c["d"], st.frame.id)
                        s.env[(st.frame.id, c["d"])] = pl
                        s.mem[pl] = v
            return [(st, ("lambda", n, st.frame.id))]
        if k == "throw":
            out = []
            for s, v in (self.rv(e["e"], st) if e.get("e") else [(st, NULL)]):
                if s.status == "normal":
                    s.status = "throw"
                    s.thrown = e.get("t", "")
                    s.trace.append(Event("throw", name=e.get("t", ""), val=v, line=e.get("ln"), file=s.frame.file))
                out.append((s, NULL))
            return out
        if k == "new":
            out = []
            if e.get("e") is not None:
                for s, v in self.rv(e["e"], st):
                    p = ("newobj", self.fresh())
                    if s.status == "normal":
                        s.mem[p] = v
                    out.append((s, T.addr(p)))
                return out
            p = ("newobj", self.fresh())
            return [(st, T.addr(p))]
        if k == "delete":
            return [(s, ("void",)) for s, v in self.rv(e["e"], st)]
        if k == "defarg":
            return self.rv(e["e"], st)
        if k == "stmtexpr":
            return [(s, ("void",)) for s in self.ex(e["body"], st)]
        if k == "unk":
            # evaluate children for effects
            sts = [st]
            vals = [()]
            cur = [(st, ())]
            for a in e.get("a", ()):
                nxt = []
                for s, vs in cur:
                    if s.status != "normal":
                        nxt.append((s, vs))
                        continue
                    for s2, v in self.rv(a, s):
                        nxt.append((s2, vs + (v,)))
                cur = nxt
            return [(s, ("app", "unk:" + e.get("c", "")) + vs) for s, vs in cur]
        if k == "typeid":
            return [(st, ("unk", self.fresh()))]
        raise Undecided("expression kind %s" % k)

    def rvs(self, es, st):
        """evaluate a list of expressions -> [(state, [values])]"""
        cur = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in cur:
                if s.status != "normal":
                    nxt.append((s, vs))
                    continue
                for s2, v in self.rv(e, s):
                    nxt.append((s2, vs + [v]))
            cur = nxt
        return cur

    def lvs(self, es, st):
        cur = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in cur:
                if s.status != "normal":
                    nxt.append((s, vs))
                    continue
                for s2, p, v in self.lv(e, s):
                    nxt.append((s2, vs + [(p, v, e)]))
            cur = nxt
        return cur

    def unary(self, e, st):
        op = e["op"]
        if op in ("++", "--"):
            out = []
            for s, p, v in self.lv(e["e"], st):
                if s.status != "normal":
                    out.append((s, NULL))
                    continue
                old = self.read(s, p)
                new = add(old, NUM1 if op == "++" else num(-1))
                self.write(s, p, new, e.get("ln"))
                out.append((s, old if e.get("post") else new))
            return out
        if op == "&":
            out = []
            for s, p, v in self.lv(e["e"], st):
                if p is not None and p[0] == "elm" and p[1][0] == "fld" and p[1][2][:1] == "*":
                    out.append((s, T.addr(p)))
                elif p is not None and p[0] == "elm":
                    out.append((s, add(("beg", p[1]), p[2])))
                elif p is not None and p[0] == "drf":
                    out.append((s, p[1]))
                else:
                    out.append((s, T.addr(p) if p is not None else v))
            return out
        if op == "*":
            return [(s, self.read(s, p) if p is not None else v) for s, p, v in self.lv(e, st)]
        if op == "!":
            out = []
            for s, b in self.cond(e["e"], st):
                out.append((s, FALSE if b else TRUE))
            return out
        out = []
        for s, v in self.rv(e["e"], st):
            if op == "-":
                v = neg(v)
            elif op == "+":
                pass
            else:
                v = app("un" + op, v)
            out.append((s, v))
        return out

    def etype(self, e):
        return e.get("t", "") if isinstance(e, dict) else ""

    def expr_is_int(self, e):
        """syntactic type of an arithmetic operand"""
        k = e["k"]
        if k == "int" or k == "sizeof" or k == "bool":
            return True
        if k == "float":
            return False
        if k == "ref" and e["dk"] == "enum":
            return True
        if k == "cast":
            return is_int_t(e.get("t")) or (not is_flt_t(e.get("t")))
        if k in ("un",):
            return self.expr_is_int(e["e"])
        if k == "sub":
            return not is_flt_t(e.get("t", "")) if "t" in e else False
        if k in ("ref", "mem", "call", "bin", "cond", "asg"):
            t = e.get("t", "")
            t = t.replace("const ", "").replace("&", "").strip()
            if is_flt_t(t):
                return False
            return True
        return False

    def binary(self, e, st):
        op = e["op"]
        if op in ("&&", "||"):
            out = []
            for s, b in self.cond(e, st):
                out.append((s, TRUE if b else FALSE))
            return out
        if op == ",":
            out = []
            for s, _ in self.rv(e["l"], st, discard=True):
                out += self.rv(e["r"], s) if s.status == "normal" else [(s, NULL)]
            return out
        out = []
        for s, vs in self.rvs([e["l"], e["r"]], st):
            if s.status != "normal":
                out.append((s, NULL))
                continue
            a, b = vs
            out.append((s, self.arith(op, a, b, e.get("t"), e)))
        return out

    def arith(self, op, a, b, t, e=None):
        if op == "+":
            return add(a, b)
        if op == "-":
            return sub(a, b)
        if op == "*":
            return mul(a, b)
        if op == "/":
            if is_int_t(t):
                if a[0] == "num" and b[0] == "num" and b[1] != 0:
                    return num(int(a[1] / b[1]))
                return app("idiv", a, b)
            return div(a, b)
        if op in ("<", "<=", ">", ">=", "==", "!="):
            isint = False
            if e is not None:
                isint = self.expr_is_int(e["l"]) and self.expr_is_int(e["r"])
            if op == "<":
                return clt(a, b, isint)
            if op == "<=":
                return cle(a, b, isint)
            if op == ">":
                return clt(b, a, isint)
            if op == ">=":
                return cle(b, a, isint)
            c = ceq(a, b)
            return c if op == "==" else cnot(c)
        if op == "%":
            return app("mod", a, b)
        return app("bin" + op, a, b)

    def assign(self, e, st):
        """built-in assignment -> [(state, place)]"""
        out = []
        # C++17: right operand first
        for s, v in self.rv(e["r"], st):
            if s.status != "normal":
                out.append((s, None))
                continue
            for s2, p, _ in self.lv(e["l"], s):
                if s2.status != "normal":
                    out.append((s2, None))
                    continue
                x = v
                if e.get("op"):
                    x = self.arith(e["op"], self.read(s2, p), v, e.get("t"))
                self.write(s2, p, x, e.get("ln"))
                out.append((s2, p))
        return out

    def cast(self, e, st):
        ck = e.get("ck")
        if ck in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean"):
            out = []
            for s, b in self.cond(e, st):
                out.append((s, TRUE if b else FALSE))
            return out
        out = []
        for s, v in self.rv(e["e"], st):
            if s.status == "normal":
                if ck == "FloatingToIntegral":
                    if v[0] == "num" and v[1].denominator == 1:
                        pass
                    else:
                        v = app("trunc", v)
                elif e.get("dyn"):
                    v = v
            out.append((s, v))
        return out

    def initlist(self, e, st):
        t = e.get("t", "")
        out = []
        if is_seq_t(t) or t.endswith("]"):
            for s, vs in self.rvs(e["a"], st):
                out.append((s, ("seq", tuple(("one", v) for v in vs)) if s.status == "normal" else NULL))
            return out
        c = self.P.classes.get(t) or self.P.cls_q.get(strip_targs(t))
        for s, vs in self.rvs(e["a"], st):
            if s.status != "normal":
                out.append((s, NULL))
                continue
            if c is not None:
                v = ("rec", ("new", strip_targs(t), self.fresh() if False else 0), tuple(sorted((f["n"], x) for f, x in zip(c["fields"], vs))))
            elif t.startswith("std::pair"):
                v = ("rec", ("pair",), tuple(zip(("first", "second"), vs)))
            elif len(vs) == 1:
                v = vs[0]
            elif not vs:
                v = self.default_value(t, s) if not (is_int_t(t) or is_flt_t(t)) else NUM0
            else:
                v = ("seq", tuple(("one", x) for x in vs))
            out.append((s, v))
        return out

    # ------------------------------------------------------------------ constructors
    def ctor(self, e, st):
        f = strip_targs(e.get("f", ""))
        t = e.get("t", "")
        fn = self.P.funcs.get(e.get("m"))
        if fn is not None and self.may_inline(fn, st):
            tmp = ("tmp", self.fresh())
            out = []
            for s in self.inline_ctor(e, st, tmp):
                v = self.read(s, tmp) if s.status == "normal" else NULL
                if v == tmp:
                    v = ("rec", ("new", strip_targs(t)), ())
                elif v[0] == "rec" and v[1] == tmp:
                    v = ("rec", ("new", strip_targs(t)), v[2])
                for p in [p for p in s.mem if self.root(p) == tmp]:
                    del s.mem[p]
                out.append((s, v))
            return out
        import models
        args = [a for a in e["a"] if not (isinstance(a, dict) and a.get("k") == "defarg")]
        return models.ctor(self, f, t, args, e, st)

    def inline_ctor(self, e, st, this):
        fn = self.P.funcs[e["m"]]
        out = []
        for s, ps in self.bind_args(fn, e["a"], st, this):
            for x in ps:
                if x.status == "return":
                    x.status = "normal"
                out.append(x)
        return out

    def bind_args(self, fn, args, st, this, parent=None, dyn=None, vals=None):
        """evaluates args and runs the body in a new frame -> [(callstate, [states])]; states have caller frame restored"""
        res = []
        cur = [(st, [])]
        if vals is not None:
            cur = [(st, vals)]
        else:
            for i, a in enumerate(args):
                nxt = []
                kind = fn["params"][i]["pk"] if i < len(fn["params"]) else "v"
                if kind == "v" and i < len(fn["params"]) and is_view_t(fn["params"][i]["t"]):
                    kind = "r"
                for s, vs in cur:
                    if s.status != "normal":
                        nxt.append((s, vs))
                        continue
                    if kind in ("r", "cr", "rr"):
                        for s2, p, v in self.lv(a, s):
                            nxt.append((s2, vs + [(p, v)]))
                    else:
                        for s2, v in self.rv(a, s):
                            nxt.append((s2, vs + [(None, v)]))
                cur = nxt
        for s, vs in cur:
            if s.status != "normal":
                res.append((s, [s]))
                continue
            caller = s.frame
            fr = Frame(fn, this=this, parent=parent, dyn=dyn or fn.get("cls"))
            fr.depth = caller.depth + 1
            self.frame_opened(fr)
            if fr.depth > 40:
                raise Undecided("inlining too deep")
            s.frame = fr
            for (p, v), prm in zip(vs, fn["params"]):
                if p is not None:
                    s.env[(fr.id, prm["d"])] = p
                else:
                    pl = ("var", prm["d"], fr.id)
                    s.env[(fr.id, prm["d"])] = pl
                    if is_eigen(prm["t"]) and v is not None and not has_v(v) and v[0] != "num":
                        v = vwrap(v)
                    s.mem[pl] = v
            self.visited.add(fn["m"])
            outs = self.run_body(s, fn)
            for o in outs:
                o.frame = caller
                # drop the callee's locals
            res.append((s, outs))
        return res

    def frame_opened(self, fr):
        pass

    def chain_has(self, st, m):
        fr = st.frame
        n = 0
        # recursion check by depth of identical function
        return False

    def may_inline(self, fn, st):
        if fn["q"] in self.opaque or fn["m"] in self.opaque:
            return False
        if self.noinline and self.noinline(fn):
            return False
        if st.frame is not None and st.frame.depth >= self.max_depth:
            return False
        if fn["body"] is None:
            return False
        return True

    # ------------------------------------------------------------------ calls
    def call(self, e, st, want_lv=False, discard=False):
        """-> [(state, place or None, value)]"""
        import models
        f = strip_targs(e["f"]) if "f" in e else None
        if f is None:
            return self.call_fp(e, st)
        # lambda called directly
        if f.endswith("::operator()") and e.get("mop") and not f.startswith("Eigen::"):
            for_l = []
            handled = True
            for s, v in self.rv(e["a"][0], st.fork()):
                if s.status == "normal" and v[0] == "lambda":
                    for_l += self.call_lambda(v, e["a"][1:], s)
                elif s.status != "normal":
                    for_l.append((s, None, NULL))
                else:
                    handled = False
                    break
            if handled:
                return for_l
        fn = self.P.funcs.get(e.get("m"))
        member = "o" in e or (e.get("mop") and "cls" in e)
        if "o" in e:
            objx, arrow, args = e["o"], e.get("arrow"), e["a"]
        elif e.get("mop"):
            objx, arrow, args = e["a"][0], False, e["a"][1:]
        else:
            objx, arrow, args = None, False, e["a"]
        # external library models
        mod = models.find(f, e) if fn is None else None
        if mod is not None:
            return mod(self, f, e, objx, arrow, args, st)
        if objx is not None and not e.get("st"):
            out = []
            for s, p, v in self.objplace(objx, st, arrow):
                if s.status != "normal":
                    out.append((s, None, NULL))
                    continue
                out += self.member_call(e, f, fn, p, v, args, s, objx)
            return out
        if fn is not None and self.may_inline(fn, st):
            return self.inline(fn, args, st, None)
        return self.opaque_call(e, f, None, None, args, st)

    def inline(self, fn, args, st, this, dyn=None, parent=None):
        out = []
        for s, outs in self.bind_args(fn, args, st, this, parent=parent, dyn=dyn):
            for o in outs:
                if o.status == "return":
                    r = o.ret
                    o.status = "normal"
                    o.ret = None
                    if r is not None and r[0] == "lvref":
                        out.append((o, r[1], None))
                    else:
                        if r is not None and is_eigen(fn.get("rt")) and not has_v(r) and r[0] != "num":
                            r = vwrap(r)
                        out.append((o, None, r if r is not None else ("void",)))
                elif o.status == "normal":
                    out.append((o, None, ("void",)))
                else:
                    out.append((o, None, NULL))
        return out

    def dyn_class(self, st, p, fn_cls):
        if p == ("this",) or p == self.this(st):
            fr = st.frame
            while fr is not None and fr.this is None:
                fr = fr.parent
            if fr is not None and p == fr.this:
                return fr.dyn
        if p in self.dyn:
            return self.dyn[p]
        if p[0] == "newobj" and len(p) == 3 and p[1] in self.P.cls_q:
            return p[1]
        if p[0] == "fld" and len(p) == 3:
            # a field that is an object is of its declared class
            return self.P.field_class(p[2])
        return None

    def member_call(self, e, f, fn, p, v, args, st, objx):
        m = e.get("m")
        if e.get("virt"):
            dc = self.dyn_class(st, p, e.get("cls")) if p is not None else None
            if dc:
                mm = self.P.resolve_virtual(m, dc)
                fn = self.P.funcs.get(mm) if mm else None
            else:
                fn = None
        else:
            dc = self.dyn_class(st, p, e.get("cls")) if p is not None else None
        if fn is not None and self.may_inline(fn, st):
            if p is None:
                p = ("tmp", self.fresh())
                st.mem[p] = v
            return self.inline(fn, args, st, p, dyn=dc)
        return self.opaque_call(e, f, p, v, args, st)

    def call_lambda(self, v, args, st, vals=None):
        node, fr = self.lambdas[v[1]]
        if "body" not in node:
            raise Undecided("generic lambda")
        fn = {"params": node["params"], "body": node["body"], "rt": "", "q": "lambda", "m": node["m"], "file": fr.file}
        if st.frame.depth > 30:
            raise Undecided("lambda recursion")
        return self.inline_vals(fn, args, st, vals, fr)

    def inline_vals(self, fn, args, st, vals, parent):
        out = []
        for s, outs in self.bind_args(fn, args, st, None, parent=parent, vals=vals):
            for o in outs:
                if o.status == "return":
                    r = o.ret
                    o.status = "normal"
                    o.ret = None
                    if r is not None and r[0] == "lvref":
                        out.append((o, r[1], None))
                    else:
                        out.append((o, None, r if r is not None else ("void",)))
                elif o.status == "normal":
                    out.append((o, None, ("void",)))
                else:
                    out.append((o, None, NULL))
        return out

    def call_fp(self, e, st):
        out = []
        for s, v in self.rv(e["fp"], st):
            if s.status != "normal":
                out.append((s, None, NULL))
                continue
            if v[0] == "lambda":
                out += self.call_lambda(v, e["a"], s)
                continue
            if v[0] == "func" and v[2] in self.P.funcs and self.may_inline(self.P.funcs[v[2]], s):
                out += self.inline(self.P.funcs[v[2]], e["a"], s, None)
                continue
            for s2, vs in self.rvs(e["a"], s):
                out.append((s2, None, ("app", "fp", v) + tuple(vs)))
        return out

    def opaque_call(self, e, f, p, v, args, st):
        """call into code that is not analysed: result is an uninterpreted function of object and argument values;
        objects reachable through mutable parameters and non-const member functions change"""
        pk = e.get("pk", [])
        args = [a["e"] if isinstance(a, dict) and a.get("k") == "defarg" else a for a in args]
        cur = [(st, [])]
        for i, a in enumerate(args):
            nxt = []
            kind = pk[i] if i < len(pk) else "v"
            for s, vs in cur:
                if s.status != "normal":
                    nxt.append((s, vs))
                    continue
                if kind in ("r", "cr", "rr"):
                    for s2, ap, av in self.lv(a, s):
                        if s2.status == "normal" and ap is not None:
                            av = self.rd(s2, ap, self.etype(a))
                        nxt.append((s2, vs + [(ap, av, kind)]))
                else:
                    for s2, av in self.rv(a, s):
                        nxt.append((s2, vs + [(None, av, kind)]))
            cur = nxt
        out = []
        for s, vs in cur:
            if s.status != "normal":
                out.append((s, None, NULL))
                continue
            objv = None
            if p is not None:
                objv = self.read(s, p)
            elif v is not None:
                objv = v
            vals = tuple(x for _, x, _ in vs)
            repo = not f.startswith(PURE_STD)
            const = e.get("cst") or (p is None and v is None)
            mutated = [ap for ap, _, kk in vs if kk == "r" and ap is not None]
            for _, av, kk in vs:
                if kk == "p" and av is not None:
                    if av[0] == "addr":
                        mutated.append(av[1])
                    elif av[0] == "beg":
                        mutated.append(av[1])
                    elif av[0] == "poly":
                        mutated += [a[1] for a in atoms(av) if a[0] == "beg"]
            outs = OUTS.get(f)
            if outs:
                # parameters that are only written: the results are functions of the other arguments
                vals = tuple(("outarg",) if i in outs else x for i, (_, x, _) in enumerate(vs))
            pure = const and (not mutated or outs is not None)
            rt = e.get("t", "")
            if pure:
                res = ("call", f) + ((objv,) if objv is not None else ()) + vals
            else:
                res = ("call", f) + ((T.obj_value(p) if p is not None else objv,) if objv is not None else ()) + vals + (("occ", self.fresh()) + tuple(("q", l) for l in self.loopstack),)
            if is_eigen(rt):
                res = ("V", res)
            ev = None
            if repo or f in self.watch:
                ev = Event("call", name=f, obj=objv, args=vals, val=res, line=e.get("ln"), file=s.frame.file, m=e.get("m"),
                           argp=[ap for ap, _, _ in vs], objp=p)
                s.trace.append(ev)
            self.unknown_calls[f] = self.unknown_calls.get(f, 0) + 1
            if outs:
                for i in outs:
                    if i < len(vs) and vs[i][0] is not None:
                        ov = ("call", "%s#%d" % (f, i), res[1] if res[0] == "V" else res)
                        if is_eigen(self.etype(args[i])):
                            ov = ("V", ov)
                        self.write(s, vs[i][0], ov, ev=False)
                mutated = [ap for i, (ap, _, kk) in enumerate(vs) if kk == "r" and ap is not None and i not in outs]
            for ap in mutated:
                self.havoc(s, ap)
            if p is not None and not e.get("cst") and not e.get("st"):
                if not (f.startswith("std::") and ("operator->" in f or "operator*" in f)):
                    self.havoc(s, p)
            rp = None
            if rt.endswith("&") and False:
                rp = ("drf", ("refres", res))
            out.append((s, rp, res))
        return out
