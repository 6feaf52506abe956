"""Canonical terms (value numbers) used by the analyses: polynomials over opaque atoms, element-wise vector values,
sequence values, comparisons.  Two expressions that compute the same polynomial get the same term."""
import hashlib
from fractions import Fraction
from decimal import Decimal

NUM0 = ("num", Fraction(0))
NUM1 = ("num", Fraction(1))
TRUE = ("bool", True)
FALSE = ("bool", False)
NULL = ("null",)
INF = ("inf",)


def num(x):
    return ("num", Fraction(x))


def numlit(s):
    try:
        return ("num", Fraction(Decimal(s)))
    except Exception:
        return ("fl", s)


_key = {}


def key(t):
    """a string that orders terms: the same for equal terms, in every run"""
    if not isinstance(t, tuple):
        return str(t)
    k = _key.get(id(t))
    if k is not None and k[0] is t:
        return k[1]
    if t and isinstance(t[0], str) and t[0] in ("num", "arg", "q", "this", "str", "bool"):
        r = repr(t)
    else:
        h = hashlib.blake2b(digest_size=12)
        for x in t:
            h.update((key(x) if isinstance(x, tuple) else str(x)).encode())
            h.update(b",")
        r = (t[0] if t and isinstance(t[0], str) else "(") + h.hexdigest()
    if len(_key) > 2000000:
        _key.clear()
    _key[id(t)] = (t, r)
    return r


_weights = {}


def weight(t):
    """number of nodes of a term"""
    if not isinstance(t, tuple):
        return 1
    r = _weights.get(id(t))
    if r is None or r[0] is not t:
        if len(_weights) > 2000000:
            _weights.clear()
        r = (t, 1 + sum(weight(x) for x in t))
        _weights[id(t)] = r
    return r[1]


def isnum(t):
    return t[0] == "num"


def topoly(t):
    """-> dict mono->coeff, mono = tuple of (atom, power)"""
    if t[0] == "num":
        return {(): t[1]} if t[1] != 0 else {}
    if t[0] == "poly":
        return dict(t[1])
    if t[0] == "bool":
        return {(): Fraction(1)} if t[1] else {}
    return {((t, 1),): Fraction(1)}


def frompoly(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if not items:
        return NUM0
    if len(items) == 1:
        m, c = items[0]
        if m == ():
            return ("num", c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda mc: key(mc[0]))
    return ("poly", tuple(items))


def add(a, b):
    if a[0] == "num" and b[0] == "num":
        return ("num", a[1] + b[1])
    d = topoly(a)
    for m, c in topoly(b).items():
        d[m] = d.get(m, 0) + c
    return frompoly(d)


def neg(a):
    return frompoly({m: -c for m, c in topoly(a).items()})


def sub(a, b):
    return add(a, neg(b))


def _mm(m1, m2):
    d = {}
    for a, p in m1:
        d[a] = d.get(a, 0) + p
    for a, p in m2:
        d[a] = d.get(a, 0) + p
    return tuple(sorted(((a, p) for a, p in d.items() if p != 0), key=key))


def mul(a, b):
    if a[0] == "num" and b[0] == "num":
        return ("num", a[1] * b[1])
    d = {}
    pb = topoly(b)
    for m1, c1 in topoly(a).items():
        for m2, c2 in pb.items():
            m = _mm(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return frompoly(d)


def div(a, b):
    if b[0] == "num":
        if b[1] == 0:
            return ("app", "div", a, b)
        return mul(a, ("num", 1 / b[1]))
    pb = topoly(b)
    if len(pb) == 1:
        (m, c), = pb.items()
        if not any(x[0][0] == "V" for x in m):
            return mul(a, frompoly({tuple((x, -p) for x, p in m): 1 / c}))
    return mul(a, ("app", "recip", b))


def atoms(t):
    """atoms of a polynomial"""
    s = set()
    for m in topoly(t):
        for a, _ in m:
            s.add(a)
    return s


def split_const(p):
    d = topoly(p)
    c = d.pop((), Fraction(0))
    return frompoly(d), c


def const_diff(a, b):
    """a-b when it is a number, else None"""
    d = sub(a, b)
    return d[1] if d[0] == "num" else None


# ---------------------------------------------------------------- substitution / traversal
def subst(t, s, memo=None, heads=None, bound=None):
    """replace sub-terms (exact atoms) by s: dict term->term; polynomials are re-normalised"""
    if heads is None:
        heads = {k[0] for k in s if isinstance(k, tuple) and k}
        if heads <= OCC:
            bound = s.keys()
        if memo is None:
            memo = {}
    if not isinstance(t, tuple) or not t:
        return t
    r = memo.get(id(t))
    if r is not None:
        return r[1]
    if bound is not None and bound.isdisjoint(occurs(t)):
        return t
    h = t[0]
    try:
        hit = h in heads and t in s
    except TypeError:
        hit = False
    if hit:
        r = s[t]
    elif h == "poly":
        acc = NUM0
        for m, c in t[1]:
            term = ("num", c)
            for a, p in m:
                b = subst(a, s, memo, heads, bound)
                if p >= 0:
                    for _ in range(p):
                        term = mul(term, b)
                else:
                    for _ in range(-p):
                        term = div(term, b)
            acc = add(acc, term)
        r = acc
    elif h in ("num", "str", "bool", "null", "inf"):
        r = t
    else:
        n = []
        same = True
        for x in t:
            if isinstance(x, tuple):
                y = subst(x, s, memo, heads, bound)
                if y is not x:
                    same = same and y == x
                n.append(y)
            else:
                n.append(x)
        r = t if same else renorm(tuple(n))
    memo[id(t)] = (t, r)
    return r


OCC = {"phi", "q"}
_occ = {}
_none = frozenset()


def occurs(t):
    """the loop variables (phi, q) that occur in a term"""
    r = _occ.get(id(t))
    if r is not None and r[0] is t:
        return r[1]
    acc = None
    for x in t:
        if isinstance(x, tuple) and x:
            o = occurs(x)
            if o:
                acc = o if acc is None or acc is o else acc if o <= acc else acc | o
    if t and t[0] in ("phi", "q"):
        acc = (acc or _none) | {t}
    acc = acc or _none
    if len(_occ) > 3000000:
        _occ.clear()
    _occ[id(t)] = (t, acc)
    return acc


def renorm(t):
    if t and isinstance(t[0], str):
        if t[0] == "V" and len(t) == 2:
            return vwrap(t[1])
        if t[0] == "elm" and len(t) == 3:
            return elem(t[1], t[2])
        if t[0] == "elm2" and len(t) == 4:
            return elem2(t[1], t[2], t[3])
        if t[0] == "size" and len(t) == 2:
            return size_of(t[1])
        if t[0] in ("le", "fle", "flt", "eq") and len(t) == 2:
            return norm_cond(t)
        if t[0] == "not":
            return cnot(t[1])
        if t[0] == "fld" and len(t) == 3:
            return project(t[1], t[2])
        if t[0] == "cw" and t[1] in ("*", "min", "max") or t[0] == "app" and t[1] in ("max", "min"):
            return t[:2] + tuple(sorted(t[2:], key=key))
        if t[0] == "same" and len(t) == 3:
            return t[:1] + tuple(sorted(t[1:], key=key))
    return t


def contains(t, x):
    if isinstance(x, tuple) and x and x[0] in OCC:
        return isinstance(t, tuple) and x in occurs(t)
    st = [t]
    seen = set()
    while st:
        y = st.pop()
        if y == x:
            return True
        if isinstance(y, tuple) and id(y) not in seen:
            seen.add(id(y))
            st.extend(z for z in y if isinstance(z, tuple))
    return False


def find_all(t, pred):
    out = []
    st = [t]
    seen = set()
    while st:
        y = st.pop()
        if not isinstance(y, tuple) or y in seen:
            continue
        seen.add(y)
        if y and isinstance(y[0], str) and pred(y):
            out.append(y)
        st.extend(z for z in y if isinstance(z, tuple))
    return out


# ---------------------------------------------------------------- conditions
def norm_cond(c):
    k, p = c[0], c[1]
    if p[0] == "num":
        v = p[1]
        return ("bool", {"le": v <= 0, "fle": v <= 0, "flt": v < 0, "eq": v == 0}[k])
    if k == "eq":
        if p[0] == "poly":
            # leading coefficient positive
            lead = p[1][0][1] if p[1][0][0] != () else (p[1][1][1] if len(p[1]) > 1 else p[1][0][1])
            if lead < 0:
                p = neg(p)
        if p[0] == "poly" and p[1] and all(m == () or True for m, _ in p[1]):
            pass
    return (k, p)


def clt(a, b, isint):
    p = sub(a, b)
    return norm_cond(("le", add(p, NUM1)) if isint else ("flt", p))


def cle(a, b, isint):
    return norm_cond(("le" if isint else "fle", sub(a, b)))


def ceq(a, b):
    if a == b:
        return TRUE
    if a == NULL:
        a, b = b, a
    if b == NULL:
        if a[0] in ("addr", "new", "beg", "lambda"):
            return FALSE
        return ("isnull", a)
    if a[0] == "bool":
        a, b = b, a
    if b[0] == "bool":
        return a if b[1] else cnot(a)
    if a[0] == "str" and b[0] == "str":
        return ("bool", a[1] == b[1])
    if a[0] in ("str", "seq", "rec") or b[0] in ("str", "seq", "rec"):
        x, y = sorted((a, b), key=key)
        return ("same", x, y)
    return norm_cond(("eq", sub(a, b)))


def cnot(c):
    if c[0] == "bool":
        return ("bool", not c[1])
    if c[0] == "not":
        return c[1]
    if c[0] == "le":
        return norm_cond(("le", sub(NUM1, c[1])))
    return ("not", c)


# ---------------------------------------------------------------- vectors
def vwrap(t):
    """vector value from an inner description; polynomials stay polynomials"""
    if t[0] in ("V", "poly", "num"):
        return t
    return ("V", t)


def vunwrap(t):
    return t[1] if t[0] == "V" else t


def has_v(t):
    if t[0] == "V":
        return True
    if t[0] == "poly":
        return any(a[0] == "V" for m, _ in t[1] for a, _ in m)
    return False


def cw(op, *args):
    """element-wise operation over vector (or broadcast scalar) values"""
    if any(has_v(a) for a in args):
        if op == "*" and sum(1 for a in args if has_v(a)) == 1:
            return mul(args[0], args[1])
        if op == "/" and not has_v(args[1]):
            return div(args[0], args[1])
        if op in ("*", "min", "max"):
            args = tuple(sorted(args, key=key))
        return ("V", ("cw", op) + tuple(args))
    return scalar_op(op, args)


def scalar_op(op, a):
    if op == "*":
        return mul(a[0], a[1])
    if op == "/":
        return div(a[0], a[1])
    if op == "sq":
        return mul(a[0], a[0])
    if op in ("abs", "sqrt", "floor", "ceil", "trunc", "sin", "cos", "exp", "log", "finite", "nan"):
        return app(op, a[0])
    if op in ("max", "min"):
        return app(op, *a)
    if op in ("lt", "le", "gt", "ge", "eq", "ne"):
        x, y = a
        if op == "lt":
            return clt(x, y, False)
        if op == "le":
            return cle(x, y, False)
        if op == "gt":
            return clt(y, x, False)
        if op == "ge":
            return cle(y, x, False)
        if op == "eq":
            return ceq(x, y)
        return cnot(ceq(x, y))
    if op == "select":
        if a[0] == TRUE:
            return a[1]
        if a[0] == FALSE:
            return a[2]
        return ("ite", a[0], a[1], a[2])
    return app(op, *a)


def app(f, *a):
    if f in ("max", "min"):
        # flatten, sort, fold constants
        xs = []
        for x in a:
            if x[0] == "app" and x[1] == f:
                xs += list(x[2:])
            else:
                xs.append(x)
        nums = [x[1] for x in xs if x[0] == "num"]
        rest = sorted({x for x in xs if x[0] != "num"}, key=key)
        if nums:
            rest.append(("num", max(nums) if f == "max" else min(nums)))
        if len(rest) == 1:
            return rest[0]
        return ("app", f) + tuple(rest)
    if f == "abs":
        x = a[0]
        if x[0] == "num":
            return ("num", abs(x[1]))
        if x[0] == "poly" and x[1][0][1] < 0:
            x = neg(x)
        return ("app", "abs", x)
    return ("app", f) + tuple(a)


PLACELIKE = {"fld", "arg", "var", "this", "drf", "elm", "call", "hv", "phi", "glob", "newobj", "tmp", "static"}


def is_map_type(t):
    return t.startswith(("std::map<", "std::unordered_map<"))


def pointee(v):
    """the place of the object that the pointer v denotes.  The objects that the elements of a container of pointers own form an array of
    their own: *X.name[i] is element i of the shadow field X.*name, so that writes through such pointers in loops are writes of elements.
    For a container of objects that hold pointers the shadow field is X.*name.path; for a container X that is no field it belongs to own(X)"""
    e, path = v, ()
    while e[0] == "fld":
        e, path = e[1], (e[2],) + path
    if e[0] == "elm" and not any(n[:1] == "*" for n in path):
        c = e[1]
        if c[0] == "fld":
            x = obj_place(c[1]) if c[2][:1] != "*" else None
            if x is not None:
                return ("elm", ("fld", x, ".".join(("*" + c[2],) + path)), e[2])
        elif path and c[0] in ("arg", "var", "newobj", "tmp", "glob"):
            return ("elm", ("fld", ("own", c), ".".join(("*",) + path)), e[2])
    return ("drf", v)


def shadow_elem(owner, name, i):
    """the object that element i of the shadow field `name` of `owner` stands for"""
    n = name[1:].split(".")
    e = ("elm", owner[1] if owner[0] == "own" else ("fld", owner, n[0]), i)
    for x in n[1:]:
        e = ("fld", e, x)
    return ("drf", e)


def obj_place(x):
    if x[0] == "drf":
        return pointee(x[1])
    if x[0] == "fld":
        p = obj_place(x[1])
        return p and ("fld", p, x[2])
    if x[0] in ("this", "arg", "var", "newobj", "tmp", "glob", "own"):
        return x
    return None


def obj_value(p):
    """the term that names the object at place p"""
    if p[0] == "elm" and p[1][0] == "fld" and p[1][2][:1] == "*":
        return shadow_elem(obj_value(p[1][1]), p[1][2], p[2])
    if p[0] == "fld":
        return ("fld", obj_value(p[1]), p[2])
    return p


def addr(p):
    p = obj_value(p)
    return p[1] if p[0] == "drf" and p[1][0] in ("elm", "fld") else ("addr", p)


PHI_AHEAD = {}     # loop-carried array -> (array before the loop, position that the iterations so far have not written or passed)


def elem(v, i):
    """value of element i of a (vector/sequence) value"""
    k = v[0]
    if k == "phi" and v in PHI_AHEAD:
        d = const_diff(i, PHI_AHEAD[v][1])
        if d is not None and d >= 0:
            return elem(PHI_AHEAD[v][0], i)
    if k == "fld" and v[2][:1] == "*":
        if obj_place(v[1]) is not None:
            return shadow_elem(v[1], v[2], i)
        return ("elm", v, i)
    if k == "num":
        return v
    if k == "poly":
        acc = NUM0
        for m, c in v[1]:
            t = ("num", c)
            for a, p in m:
                b = elem(a, i) if a[0] == "V" else a
                for _ in range(abs(p)):
                    t = mul(t, b) if p > 0 else div(t, b)
            acc = add(acc, t)
        return acc
    if k == "V":
        w = v[1]
        kk = w[0]
        if kk == "const":
            return w[1]
        if kk == "cw":
            return scalar_op(w[1], [elem(x, i) if has_v(x) else x for x in w[2:]])
        if kk == "blk":
            return elem(w[1], add(w[2], i))
        if kk == "row":
            return elem2(w[1], w[2], i)
        if kk == "col":
            return elem2(w[1], i, w[2])
        if kk == "list":
            if i[0] == "num" and i[1].denominator == 1 and 0 <= i[1] < len(w[1]):
                return w[1][int(i[1])]
        if kk == "T":
            return elem(w[1], i)
        if kk == "diagm":
            return elem(w[1], i)
        if kk in ("st", "seq"):
            return elem(w, i)
        if kk in PLACELIKE:
            return ("elm", w, i)
        return ("elm", v, i)
    if k == "st":
        return read_store(v, (i,))
    if k == "seq":
        r = seq_elem(v, i)
        if r is not None:
            return r
        return ("elm", v, i)
    return ("elm", v, i)


def elem2(v, i, j):
    k = v[0]
    if k == "num":
        return v
    if k == "poly":
        acc = NUM0
        for m, c in v[1]:
            t = ("num", c)
            for a, p in m:
                b = elem2(a, i, j) if a[0] == "V" else a
                for _ in range(abs(p)):
                    t = mul(t, b) if p > 0 else div(t, b)
            acc = add(acc, t)
        return acc
    if k == "V":
        w = v[1]
        kk = w[0]
        if kk == "const":
            return w[1]
        if kk == "cw":
            return scalar_op(w[1], [elem2(x, i, j) if has_v(x) else x for x in w[2:]])
        if kk == "T":
            return elem2(w[1], j, i)
        if kk == "blk2":
            return elem2(w[1], add(w[2], i), add(w[3], j))
        if kk == "st":
            return read_store(w, (i, j))
        if kk in PLACELIKE:
            return ("elm2", w, i, j)
        return ("elm2", v, i, j)
    if k == "st":
        return read_store(v, (i, j))
    return ("elm2", v, i, j)


def read_store(v, idx):
    """v = ('st', base, entries) ; entries oldest first: (quants, guards, idx, val)"""
    base, entries = v[1], v[2]
    for n in range(len(entries) - 1, -1, -1):
        quants, guards, eidx, val = entries[n]
        if len(eidx) != len(idx):
            return ("rd", v, idx)
        if not quants and not guards:
            if eidx == idx:
                return val
            ds = [const_diff(a, b) for a, b in zip(eidx, idx)]
            if any(d is not None and d != 0 for d in ds):
                continue
            if any(a[0] == "str" and b[0] == "str" and a != b for a, b in zip(eidx, idx)):
                continue
            under = read_store(("st", base, entries[:n]), idx)
            return val if under == val else ("rd", ("st", base, entries[:n + 1]), idx)
        return ("rd", ("st", base, entries[:n + 1]), idx)
    if len(idx) == 1:
        return elem(base, idx[0])
    return elem2(base, idx[0], idx[1])


def store(v, idx, val, quants=(), guards=()):
    inner = v
    wrapped = False
    if v[0] == "V":
        inner = v[1]
        wrapped = True
    if inner[0] == "st":
        ents = inner[2]
        if not quants and not guards and ents and not ents[-1][0] and not ents[-1][1] and ents[-1][2] == idx:
            ents = ents[:-1]
        r = ("st", inner[1], ents + ((quants, guards, idx, val),))
    else:
        r = ("st", inner if not wrapped else v, ((quants, guards, idx, val),))
    return ("V", r) if wrapped else r


# ---------------------------------------------------------------- sequences
def seq(*segs):
    return ("seq", tuple(segs))


def as_segs(v):
    if v[0] == "seq":
        return v[1]
    return (("all", v),)


def seq_append(v, segs):
    if v[0] == "V":
        v = v[1]
    if v[0] == "seq":
        return ("seq", v[1] + tuple(segs))
    return ("seq", (("all", v),) + tuple(segs))


def seg_size(s):
    if s[0] == "one":
        return NUM1
    if s[0] == "rep":
        return s[1]
    if s[0] == "all":
        return size_of(s[1])
    if s[0] == "rng":
        return s[3]
    if s[0] == "for":
        _, q, n, alts = s
        szs = []
        for g, sg in alts:
            t = NUM0
            for x in sg:
                t = add(t, seg_size(x))
            szs.append((g, t))
        if len({x for _, x in szs}) == 1 and not contains(szs[0][1], q):
            return mul(n, szs[0][1])
        return ("sum", q, n, tuple(szs))
    return ("app", "segsize", s)


def seq_elem(v, i):
    off = NUM0
    segs = v[1]
    # from the back: v[size-1-k]
    for s in segs:
        d = const_diff(i, off)
        if s[0] == "one":
            if d is not None and d == 0:
                return s[1]
            if d is None or d < 0:
                # maybe symbolic
                return seq_elem_sym(v, i)
            off = add(off, NUM1)
            continue
        if s[0] == "all" and len(segs) == 1:
            return elem(s[1], i)
        if s[0] == "rep" and len(segs) == 1:
            return s[2]
        if s[0] == "for" and len(segs) == 1:
            return seq_elem_sym(v, i)
        if d is not None and d < 0:
            return None
        off = add(off, seg_size(s))
    return None


def seq_elem_sym(v, i):
    segs = v[1]
    if len(segs) == 1 and segs[0][0] == "for":
        _, q, n, alts = segs[0]
        if len(alts) == 1 and not alts[0][0] and len(alts[0][1]) == 1 and alts[0][1][0][0] == "one":
            return subst(alts[0][1][0][1], {q: i})
    return None


PHI_KEEPS = {}      # loop-carried array -> (its value before the loop, the fields of its elements that the loop writes)
PHI_SHAPE = {}      # loop-carried value -> value of the same shape before the loop (element writes keep the shape)


SIZE_ALIAS = {}     # field -> field of the same length (class invariants assumed for inputs)


def size_of(v):
    k = v[0]
    if k == "phi" and v in PHI_SHAPE:
        return size_of(PHI_SHAPE[v])
    if k == "fld" and v[1][0] == "phi" and v in PHI_SHAPE:
        return size_of(PHI_SHAPE[v])
    if k == "seq":
        t = NUM0
        for s in v[1]:
            t = add(t, seg_size(s))
        return t
    if k == "st":
        return size_of(v[1])
    if k == "vresized":
        return v[2]
    if k == "V":
        w = v[1]
        if w in PHI_SHAPE:
            return size_of(PHI_SHAPE[w])
        if w[0] == "const":
            return w[2] if len(w) == 3 else (mul(w[2], w[3]) if len(w) == 4 else ("size", v))
        if w[0] == "sized":
            return w[1] if len(w) == 2 else mul(w[1], w[2])
        if w[0] == "lam":
            return w[2] if len(w) == 4 else mul(w[2], w[4])
        if w[0] == "row":
            return cols_of(w[1])
        if w[0] == "col":
            return rows_of(w[1])
        if w[0] == "blk":
            return w[3]
        if w[0] == "matvec":
            return rows_of(w[1])
        if w[0] == "cw":
            for x in w[2:]:
                if has_v(x):
                    return size_of(x)
        if w[0] in ("st", "seq"):
            return size_of(w)
        if w[0] == "list":
            return num(len(w[1]))
        if w[0] in ("T",):
            return size_of(w[1])
        if w[0] == "resized":
            return w[2]
        if w[0] in PLACELIKE:
            return size_of(w)
        return ("size", v)
    if k == "poly":
        for m, _ in v[1]:
            for a, _ in m:
                if a[0] == "V":
                    return size_of(a)
    if k == "str":
        return num(len(v[1]))
    if k == "fld" and v[2] in SIZE_ALIAS:
        return size_of(project(v[1], SIZE_ALIAS[v[2]]))
    if k == "fld" and v[2][:1] == "*":
        return size_of(v[1][1] if v[1][0] == "own" else project(v[1], v[2][1:].split(".")[0]))
    return ("size", v)


def rows_of(v):
    if v[0] == "V":
        w = v[1]
        if w in PHI_SHAPE:
            return rows_of(PHI_SHAPE[w])
        if w[0] == "sized" and len(w) == 3:
            return w[1]
        if w[0] == "const" and len(w) == 4:
            return w[2]
        if w[0] == "st":
            return rows_of(w[1])
        if w[0] == "T":
            return cols_of(w[1])
        if w[0] in ("matvec", "matmul"):
            return rows_of(w[1])
        if w[0] == "trip":
            return w[1]
        if w[0] == "lam" and len(w) == 6:
            return w[2]
        if w[0] == "blk":
            return w[3]
        if w[0] in ("sized", "const", "list", "seq", "resized"):
            return size_of(v)
        if w[0] == "cw":
            for x in w[2:]:
                if has_v(x):
                    return rows_of(x)
    if v[0] == "poly":
        for m, _ in v[1]:
            for a, _ in m:
                if a[0] == "V":
                    return rows_of(a)
    return ("app", "rows", v)


def cols_of(v):
    if v[0] == "V":
        w = v[1]
        if w in PHI_SHAPE:
            return cols_of(PHI_SHAPE[w])
        if w[0] == "sized" and len(w) == 3:
            return w[2]
        if w[0] == "const" and len(w) == 4:
            return w[3]
        if w[0] == "st":
            return cols_of(w[1])
        if w[0] == "T":
            return rows_of(w[1])
        if w[0] == "matmul":
            return cols_of(w[2])
        if w[0] == "trip":
            return w[2]
        if w[0] == "lam" and len(w) == 6:
            return w[4]
    return ("app", "cols", v)


# ---------------------------------------------------------------- records
def project(v, name):
    """field `name` of value v"""
    if v[0] == "rec":
        for n, x in v[2]:
            if n == name:
                return x
        return project(v[1], name)
    if v[0] == "rd" and v[1][0] == "st" and v[1][2] and not v[1][2][-1][0] and not v[1][2][-1][1]:
        # written or not, the field has the same value
        x = project(v[1][2][-1][3], name)
        if x == project(read_store(("st", v[1][1], v[1][2][:-1]), v[2]), name):
            return x
    if v[0] in ("elm", "rd", "elm2") and v[1][0] not in ("fld", "arg", "var"):
        x = unwritten(v, (name,))
        if x is not None:
            return project(x, name)
    if v[0] == "ite":
        return ("ite", v[1], project(v[2], name), project(v[3], name))
    return ("fld", v, name)


def unwritten(v, path):
    """v with its value before the loop for the loop-carried array that v is a part of, if the loop does not write that part"""
    if v[0] == "elm":
        x = unwritten(v[1], path)
        return x and elem(x, v[2])
    if v[0] == "rd" and len(v[2]) == 1:
        x = unwritten(v[1], path)
        return x and elem(x, v[2][0])
    if v[0] == "fld":
        x = unwritten(v[1], (v[2],) + path)
        return x and project(x, v[2])
    if v[0] == "V" and v[1][0] in ("phi", "lout", "st"):
        v = v[1]
    if v[0] == "lout" and isinstance(v[-1], int):
        init, paths = PHI_KEEPS.get(("phi", v[1], v[4][v[-1]]), (None, ()))
        if init is not None and not any(f[:len(path)] == path[:len(f)] for f in paths):
            return unwritten(v[5][v[-1]], path) or v[5][v[-1]]
    if v[0] == "st" and all(len(i) == 1 and x[0] == "rec" and x[1][0] in ("elm", "drf") and i[0] in (x[1][-1], x[1][1][-1]) and all(n != path[0] for n, _ in x[2]) for _, _, i, x in v[2]):
        return unwritten(v[1], path) or v[1]
    if v[0] == "phi" and v in PHI_KEEPS:
        init, paths = PHI_KEEPS[v]
        if not any(f[:len(path)] == path[:len(f)] for f in paths):
            return init
    return None


def with_field(v, name, x):
    if v[0] == "rec":
        d = dict(v[2])
        d[name] = x
        return ("rec", v[1], tuple(sorted(d.items())))
    return ("rec", v, ((name, x),))


# ---------------------------------------------------------------- printing
def show(t, depth=0):
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return "()"
    k = t[0]
    if not isinstance(k, str):
        return "(" + ", ".join(show(x) for x in t) + ")"
    if k == "num":
        f = t[1]
        return str(f.numerator) if f.denominator == 1 else (str(float(f)))
    if k == "poly":
        out = []
        for m, c in t[1]:
            s = "*".join(show(a) + ("" if p == 1 else "^%d" % p) for a, p in m)
            if not m:
                out.append(show(("num", c)))
            elif c == 1:
                out.append(s)
            elif c == -1:
                out.append("-" + s)
            else:
                out.append(show(("num", c)) + "*" + s)
        return "(" + " + ".join(out) + ")"
    if k == "this":
        return "this"
    if k == "fld":
        return (show(t[1]) + "." if t[1] != ("this",) else "this.") + t[2]
    if k == "V":
        return show(t[1])
    if k == "elm":
        return "%s[%s]" % (show(t[1]), show(t[2]))
    if k == "elm2":
        return "%s(%s,%s)" % (show(t[1]), show(t[2]), show(t[3]))
    if k == "drf":
        return "*" + show(t[1])
    if k == "arg":
        return "arg:%s" % (t[2] if len(t) > 2 else t[1])
    if k == "str":
        return repr(t[1])
    if k == "bool":
        return str(t[1]).lower()
    if k == "q":
        return "q%s" % t[1]
    if k == "size":
        return "|%s|" % show(t[1])
    if k == "app":
        return "%s(%s)" % (t[1].split("::")[-1], ", ".join(show(x) for x in t[2:]))
    if k == "call":
        return "%s(%s)" % (t[1].split("::")[-1], ", ".join(show(x) for x in t[2:]))
    if k == "le":
        return "%s<=0" % show(t[1])
    if k == "fle":
        return "%s<=.0" % show(t[1])
    if k == "flt":
        return "%s<.0" % show(t[1])
    if k == "eq":
        return "%s==0" % show(t[1])
    if k == "not":
        return "!" + show(t[1])
    if k == "addr":
        return "&" + show(t[1])
    if k == "hv":
        return "%s'%s" % (show(t[2]), t[1])
    return k + "(" + ", ".join(show(x) for x in t[1:]) + ")"
