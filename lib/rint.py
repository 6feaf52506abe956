"""Random interpretation of value-flow terms (global value numbering by random interpretation, Gulwani & Necula 2004).

Two different normal forms can still be the same function of the inputs.  Before a difference is reported, both terms are given a
meaning under random valuations of their atoms (uninterpreted results of opaque calls, fields, arguments) that satisfy the facts of
the path; only a valuation that separates the terms makes the difference a violation.  It is the terms of the analysis that are
interpreted, never the program."""
import os
import hashlib, math, time
from fractions import Fraction
from terms import *


class Reject(Exception):
    """the valuation is outside the domain (index out of range, division by zero, violated fact)"""


class OutOfRange(Reject):
    """an element that does not exist, or operands whose sizes do not match"""


class Unknown(Exception):
    """a term without an interpretation"""


class Grow(Exception):
    pass


class Atom:
    __slots__ = ("key",)

    def __init__(self, k):
        self.key = k


class Arr:
    """array value: total element function, known or lazily derived shape"""
    two = False
    atom = None     # key of the atom: elements and shape are those of an atom (vector or matrix)

    def __init__(self, get=None, size=None, get2=None, rows=None, cols=None, two=False):
        self._g, self._s, self._g2, self._r, self._c, self.two = get, size, get2, rows, cols, two

    def size(self):
        if self._s is not None:
            return self._s()
        return self.rows() * self.cols()

    def rows(self):
        return self._r() if self._r is not None else self._s()

    def cols(self):
        return self._c() if self._c is not None else 1

    def get(self, i):
        if self._g is None:
            if self.rows() == 1:
                return self._g2(0, i)
            if self.cols() == 1:
                return self._g2(i, 0)
            raise Unknown("linear index into a matrix")
        return self._g(i)

    def get2(self, i, j):
        if self._g2 is None:
            return self._g(i if j == 0 else j)
        return self._g2(i, j)


def first_elements(k):
    if not isinstance(k, tuple) or not k:
        return k
    if k[0] == "elm" and len(k) == 3:
        return ("elm", first_elements(k[1]), 0)
    return tuple(first_elements(x) if isinstance(x, tuple) else x for x in k)


def listarr(l):
    def get(i):
        if not 0 <= i < len(l):
            raise OutOfRange()
        return l[i]
    return Arr(get, lambda: len(l))


class Rec:
    def __init__(self, base, fields):
        self.base, self.fields = base, fields


class MapV:
    def __init__(self, base, items, dflt=None):
        self.base, self.items, self.dflt = base, items, dflt     # items: list of (key value, value); dflt: value of an absent key


POOL = [Fraction(x) for x in ("0", "0", "0", "1", "-1", "2", "-2", "1/2", "-1/2", "3", "-3", "3/4", "-3/4", "5/4", "-5/4", "7/8", "-9/8", "5/2", "-5/2", "1/4")]
MAPS = set()      # names of the fields that are maps: filled by the checks
VALUE_CLASSES = []      # (name, fields): filled by the checks
SIZES = [[0, 1, 1, 2, 2, 2, 3, 3], [3, 4, 5, 6], [1, 2, 3], [6, 7, 8, 9]]
SIZE_OF = {}     # method -> the number (an atom) that the size of its result is by contract; ("rows"|"cols", method) for matrices
WHOLE = set()   # functions whose contract is stated on the whole call, not on its object
SIZE_BY = {}     # field -> the integer field of the same record that its size is
HINTS = {}      # field name -> plausible integers: filled by the checks
ORDERED = {}    # field -> the field of the same record that is never greater
BUDGET = 40.0    # seconds of valuations per comparison
DEPTH = 1        # factor on the number of valuations (thorough)
INTS = [0, 1, 2, 3, 1, 2, 0, -1, 4, 5]
SMALL = [Fraction(x) for x in (1, 1, 2, -1, 0)]


def modes(terms):
    """kinds of valuations: small and larger containers, generic and repeating numbers, and the constants the terms compare with"""
    lens, nums, ints = set(), set(), set()
    for c in find_all(terms, lambda y: y[0] in ("le", "flt", "fle", "eq") and len(y) == 2):
        d = topoly(c[1])
        for m, k in d.items():
            if m == ():
                for q in [abs(k)] + [abs(k / v) for n, v in d.items() if n != ()]:
                    if c[0] != "le" and q != 0:
                        nums |= {q, -q, q * 2, -q * 2, q / 2}
                    if q.denominator == 1 and 1 < q <= 40:
                        lens |= {int(q) - 1, int(q), int(q) + 1, int(q) + 2}
                        ints |= {int(q), int(q) + 1, int(q) - 1}
    for a in find_all(terms, lambda y: y[0] == "app" and y[1] in ("max", "min")):
        nums |= {x[1] for x in a[2:] if x[0] == "num"} | {x[1] + 1 for x in a[2:] if x[0] == "num"}
    base = [dict(sizes=SIZES[0]), dict(sizes=SIZES[2], pool=SMALL, wide=0), dict(sizes=SIZES[1]), dict(sizes=SIZES[1], pool=SMALL, wide=0),
            dict(sizes=SIZES[2], wide=1), dict(sizes=SIZES[3], pool=SMALL + POOL, wide=8)]
    if find_all(terms, lambda y: y[0] == "inner" or (y[0] == "app" and y[1] == "nonZeros")):
        base[2:2] = [dict(sizes=SIZES[0], sparse=True), dict(sizes=SIZES[1], pool=SMALL, wide=0, sparse=True)]
    if lens or nums or ints:
        pool = POOL + sorted(nums)[:40] * (1 + 20 // max(1, len(nums)))
        base.append(dict(sizes=SIZES[0], pool=pool, intpool=INTS + sorted(ints)))
        if lens:
            base.append(dict(sizes=[x for x in sorted(lens) if x > 1] + [1], pool=pool, intpool=INTS + sorted(ints)))
    return base


# heads of terms that stand for an unknown value which is a function of the sub-terms
UNINTERPRETED = {"call", "newobj", "arg", "this", "fld", "var", "glob", "static", "tmp", "addr", "drf", "new", "default", "str", "beg", "lambda", "ptrto", "text",
                 "void", "occ", "first", "second", "func", "cls", "kind", "lockobj", "outarg", "triplet", "size", "evt", "pair"}
UNINTERPRETED_OPS = {"tostr", "Map", "isApprox", "pow", "construct", "default", "string", "concat", "haskey", "sin", "cos", "tan", "exp", "log", "atan2", "acos", "asin",
                     "norm", "arg"}
_free = {}


def free(t):
    """free bound-variable names of a term, in a fixed order"""
    if not isinstance(t, tuple) or not t:
        return ()
    r = _free.get(id(t))
    if r is not None:
        return r[0]
    k = t[0]
    if k == "q":
        f = (t,)
    elif k == "phi":
        f = (t,)
    elif k in ("num", "str", "bool", "null", "inf"):
        f = ()
    else:
        acc = set()
        if k in ("for", "for?", "sum", "lam", "fexit") and len(t) == 4:
            acc |= set(free(t[3])) - {t[1]}
            acc |= set(free(t[2]))
        elif k == "lam" and len(t) == 6:
            acc |= set(free(t[5])) - {t[1], t[3]}
            acc |= set(free(t[2])) | set(free(t[4]))
        elif k == "lout":
            acc |= set(free(t[6])) - {t[2]} - {("phi", t[1], m) for m in t[4]}
            acc |= set(free(t[3])) | set(free(t[5]))
        elif k == "sorted":
            acc |= set(free(t[3])) - {("phi", t[2], "a"), ("phi", t[2], "b")}
            acc |= set(free(t[1]))
        elif k == "lastalt":
            acc |= set(free(t[3])) - {t[1]}
            acc |= set(free(t[2])) | set(free(t[4]))
        elif k == "st" and len(t) == 3:
            acc |= set(free(t[1]))
            for quants, guards, idx, val in t[2]:
                b = set(free(guards)) | set(free(idx)) | set(free(val)) | set(free(tuple(c for _, c in quants)))
                acc |= b - {q for q, _ in quants}
        else:
            for x in t:
                if isinstance(x, tuple):
                    acc |= set(free(x))
        f = tuple(sorted(acc, key=repr)) if len(acc) > 1 else tuple(acc)
    if len(_free) > 500000:
        _free.clear()
    _free[id(t)] = (f, t)
    return f

def akey(v):
    return v.key if isinstance(v, Atom) else v.atom if isinstance(v, Arr) and v.atom else None


class Valuation:
    def __init__(self, seed, ints, nums, alias, pins=None, sizes=SIZES[0], pool=POOL, intpool=INTS, wide=4, sparse=False):
        self.sparse = sparse       # matrices have zero entries, or nothing but zeros
        self.seed, self.ints, self.nums, self.alias = seed, ints, nums, alias
        self.sizes, self.pool, self.intpool, self.wide = sizes, pool, intpool, wide
        self.memo = {}
        self.hmemo = {}
        self.states = []
        self.grown = False
        self.eqsize = {}
        self.strict = False        # reading an element that is not there is outside the domain
        self.uniform = int(hashlib.blake2b(repr(seed).encode(), digest_size=1).hexdigest(), 16) % 2 == 0
        self.steps = 0
        self.pins = pins or {}
        self.spins = {}
        self.wishes = {}
        self.given = self.pins

    # ------------------------------------------------------------ atoms
    def h(self, tag, k):
        m = (tag, k)
        r = self.hmemo.get(m)
        if r is None:
            r = int.from_bytes(hashlib.blake2b(repr((self.seed, tag, k)).encode(), digest_size=8).digest(), "big")
            self.hmemo[m] = r
        return r

    def atomnum(self, k):
        if ORDERED and k[0] == "fld" and k[2] in ORDERED:
            low, x = self.atomnum(("fld", k[1], ORDERED[k[2]])), self.rawnum(k)
            if x >= low:
                return x
            if k in self.pins:
                raise Reject()
            return low
        return self.rawnum(k)

    def rawnum(self, k):
        if k in self.pins:
            return self.pins[k]
        if k not in self.nums:
            self.nums.add(k)
            self.grown = True
        h = self.h("n", k)
        if self.sparse and k[0] == "elm2":
            z = self.h("z", k[1]) % 3
            if z == 0 or z == 1 and self.h("z", k) % 2:
                return Fraction(0)
        if k in self.ints:
            pool = HINTS.get(k[2], self.intpool) if k[0] == "fld" else self.intpool
            return Fraction(pool[h % len(pool)])
        if self.wide and h % self.wide == 0:
            return Fraction((h >> 8) % 1025 - 512, 128)
        return self.pool[(h >> 8) % len(self.pool)]

    def atomint(self, k):
        if k not in self.ints and k not in self.pins:
            self.ints.add(k)
            self.grown = True
        r = self.atomnum(k)
        if r.denominator != 1:
            raise Reject()
        return int(r)

    def atomsize(self, k):
        if k[0] == "fld" and k[2] in self.alias:
            return self.atomsize(("fld", k[1], self.alias[k[2]]))
        k = self.sizekey(k)
        if isinstance(k, int):
            return k
        if k in self.spins:
            return self.spins[k]
        return self.sizes[self.h("s", k) % len(self.sizes)]

    def sizekey(self, k):
        if k[0] == "fld" and k[2] in self.alias:
            return self.sizekey(("fld", k[1], self.alias[k[2]]))
        if k[0] == "fld" and k[2][:1] == "*":
            return self.sizekey(k[1][1] if k[1][0] == "own" else ("fld", k[1], k[2][1:].split(".")[0]))
        if k[0] == "fld" and k[2] in SIZE_BY:
            n = self.atomint(("fld", k[1], SIZE_BY[k[2]]))
            if n < 0:
                raise Reject()
            return n
        c = k[1] if k[0] in ("rows", "cols") else k
        if SIZE_OF and c[0] == "call" and len(c) >= 3:
            # the interface's contract says how many values the call returns
            m = c[1].split("::")[-1]
            f = SIZE_OF.get(m if c is k else (k[0], m))
            if f is not None:
                n = f(c) if m in WHOLE else f(c[2])
                if isinstance(n, int):
                    return n
                if n is not None and n[0] == "size":
                    return self.sizekey(n[1])
                if n is not None:
                    n = self.atomint(n)
                    if n < 0:
                        raise Reject()
                    return n
        if self.uniform:
            # the elements of a container have the same shape
            k = first_elements(k)
        while k in self.eqsize:
            k = self.eqsize[k]
        return k

    def termsizekey(self, t):
        """the key of the atom whose size a term is"""
        if t[0] == "size" and len(t) == 2:
            return akey(self.ev(t[1], {}))
        if t[0] == "app" and t[1] in ("rows", "cols") and len(t) == 3:
            k = akey(self.ev(t[2], {}))
            return (t[1], k) if k else None
        return None

    def assume_sizes(self, facts):
        """choose the sizes so that the stated equalities between sizes of atoms hold"""
        key = self.termsizekey
        self.eqsize = {}
        for c, b in facts:
            if not b or c[0] != "eq":
                continue
            d = topoly(c[1])
            lin = [(m[0][0], v) for m, v in d.items() if len(m) == 1 and m[0][1] == 1]
            if any(m != () and not (len(m) == 1 and m[0][1] == 1) for m in d):
                continue
            k0 = d.get((), 0)
            if not (len(lin) == 2 and k0 == 0 and lin[0][1] + lin[1][1] == 0 or len(lin) == 1 and abs(lin[0][1]) == 1):
                continue
            try:
                ks = [key(a) for a, _ in lin]
            except (Reject, Unknown):
                continue
            if None in ks:
                continue
            ks = [self.sizekey(k) for k in ks]
            if len(ks) == 1:
                n = -k0 * lin[0][1]
                if not isinstance(ks[0], int) and n >= 0 and n.denominator == 1:
                    self.eqsize[ks[0]] = int(n)
            elif ks[0] != ks[1]:
                if isinstance(ks[0], int):
                    ks.reverse()
                if not isinstance(ks[0], int):
                    self.eqsize[ks[0]] = ks[1]
        self.memo.clear()

    def satisfy(self, facts):
        """the facts hold, if need be after giving unknown numbers the values that linear facts ask for"""
        facts = sorted(facts, key=lambda f: weight(f[0]))
        tried = {}
        for rep in range(40):
            bad = next(((c, b) for c, b in facts if self.truth(self.ev(c, {})) != b), None)
            if bad is None:
                return True
            c, b = bad
            tried[c] = tried.get(c, 0) + 1
            if tried[c] > (8 if weight(c) < 60 else 2):
                return False
            if self.grown or c[0] not in ("eq", "le"):
                return False
            d = topoly(c[1])
            r = self.num(self.ev(c[1], {}))
            if isinstance(r, float):
                return False
            opts = []
            for m, k in d.items():
                if len(m) == 1 and m[0][1] == 1:
                    w = self.termsizekey(m[0][0])
                    w = w and self.sizekey(w)
                    if w and not isinstance(w, int):
                        n = self.atomsize(w) - r / k
                        if not b:
                            n += Fraction(1, 1) / k if c[0] == "le" else 1
                        if n.denominator == 1 and 0 <= n <= 14:
                            opts.append((("size", w), int(n)))
                        continue
                    a = self.ev(m[0][0], {})
                    if isinstance(a, Atom) and a.key not in self.given:
                        w = self.atomnum(a.key) - r / k
                        if not b:
                            w += Fraction(1, 1) / k if c[0] == "le" else 1
                        if a.key not in self.ints or w.denominator == 1:
                            opts.append((a.key, w))
            if not opts:
                return False
            opts.sort(key=repr)
            k, w = opts[self.h("r", (rep, len(opts))) % len(opts)]
            if k[0] == "size":
                self.spins[k[1]] = w
            else:
                self.pins[k] = w
            self.memo.clear()
        return False

    def at(self, k, i):
        if self.strict and not 0 <= i < self.atomsize(k):
            raise Reject()
        if k[0] == "fld" and k[2][:1] == "*":
            return Atom(shadow_elem(k[1], k[2], i))
        return Atom(("elm", k, i))

    def at2(self, k, i, j):
        if self.strict and not (0 <= i < self.atomsize(("rows", k)) and 0 <= j < self.atomsize(("cols", k))):
            raise Reject()
        return Atom(("elm2", k, i, j))

    # ------------------------------------------------------------ demands
    def num(self, v):
        if isinstance(v, bool):
            return Fraction(int(v))
        if isinstance(v, (Fraction, float)):
            return v
        if isinstance(v, Atom):
            return self.atomnum(v.key)
        if isinstance(v, Arr) and v.size() == 1:
            return self.num(v.get(0))
        raise Unknown("number expected")

    def int(self, v):
        if isinstance(v, Atom):
            return self.atomint(v.key)
        v = self.num(v)
        if isinstance(v, float):
            raise Reject()
        if v.denominator != 1:
            raise Reject()
        return int(v)

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, (Fraction, float)):
            return v != 0
        if isinstance(v, Atom):
            if v.key in self.nums:
                return self.atomnum(v.key) != 0
            return self.h("b", v.key) % 2 == 0
        raise Unknown("truth value expected")

    def arr(self, v):
        if isinstance(v, Arr):
            return v
        if isinstance(v, Atom):
            k = v.key
            r = Arr(lambda i: self.at(k, i), lambda: self.atomsize(k), lambda i, j: self.at2(k, i, j),
                    lambda: self.atomsize(("rows", k)), lambda: self.atomsize(("cols", k)))
            r.atom = k
            return r
        raise Unknown("array expected")

    def isnum(self, v):
        return isinstance(v, (Fraction, float, bool))

    # ------------------------------------------------------------ value keys
    def vkey(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, Fraction):
            return ("n", v)
        if isinstance(v, float):
            return ("n", float("%.9g" % v))
        if isinstance(v, Atom):
            if v.key in self.nums:
                return ("n", self.atomnum(v.key))
            return v.key
        if isinstance(v, Arr):
            if v.atom:
                return v.atom
            if v.two:
                r, c = v.rows(), v.cols()
                es = {(i, j): v.get2(i, j) for i in range(r) for j in range(c)}
                e = es.get((0, 0))
                if isinstance(e, Atom) and e.key[0] == "elm2" and all(isinstance(x, Atom) and x.key == ("elm2", e.key[1]) + ij for ij, x in es.items()) and \
                        self.atomsize(("rows", e.key[1])) == r and self.atomsize(("cols", e.key[1])) == c:
                    return e.key[1]
                return ("arr2", r, c, tuple(self.vkey(v.get2(i, j)) for i in range(r) for j in range(c)))
            n = v.size()
            es = [v.get(i) for i in range(n)]
            # an array whose elements are those of one opaque array is that array
            if n and isinstance(es[0], Atom) and len(es[0].key) == 3 and es[0].key[0] == "elm":
                b = es[0].key[1]
                if all(isinstance(e, Atom) and e.key == ("elm", b, i) for i, e in enumerate(es)) and self.atomsize(b) == n:
                    return b
            return ("arr", tuple(self.vkey(e) for e in es))
        if isinstance(v, Rec):
            base = self.vkey(v.base) if not isinstance(v.base, tuple) else v.base
            fl = {k: self.vkey(x) for k, x in v.fields.items()}
            for q, names in VALUE_CLASSES:
                if set(fl) <= names and (base[0] != "new" or base[1].replace("const ", "") == q):
                    if base[0] != "new":
                        for n in names:
                            fl.setdefault(n, ("fld", base, n))
                    if set(fl) == names:
                        bs = {k[1] for n, k in fl.items() if isinstance(k, tuple) and len(k) == 3 and k[0] == "fld" and k[2] == n}
                        if len(bs) == 1 and all(k == ("fld", next(iter(bs)), n) for n, k in fl.items()):
                            return bs.pop()
                        base = ("new", q)
                    break
            else:
                if base[0] != "new":
                    fl = {n: k for n, k in fl.items() if k != ("fld", base, n)}
                    if not fl:
                        return base
            return ("rec", base, tuple(sorted(fl.items(), key=lambda x: x[0])))
        if isinstance(v, MapV):
            its = []
            for k, x in v.items:
                k = self.vkey(k)
                its = [y for y in its if y[0] != k] + [(k, self.vkey(x))]
            return ("map", self.vkey(v.base) if v.base is not None else None, tuple(sorted(its, key=repr)))
        if isinstance(v, tuple):
            return ("tup",) + tuple(self.vkey(x) for x in v)
        if v is None or isinstance(v, str):
            return v
        raise Unknown("value key")

    # ------------------------------------------------------------ terms
    def ev(self, t, env):
        if env:
            fq = free(t)
            if len(fq) < len(env):
                env = {q: env[q] for q in fq if q in env}
            mk = (id(t), tuple(env[q] for q in fq if q in env))
        else:
            mk = (id(t), ())
        r = self.memo.get(mk)
        if r is not None:
            return r[0]
        self.steps += 1
        if self.steps > 150000:
            raise Unknown("too large")
        v = self.ev1(t, env)
        self.memo[mk] = (v, t)
        return v

    def ev1(self, t, env):
        if not isinstance(t, tuple):
            return t
        if not t:
            return ()
        k = t[0]
        if not isinstance(k, str):
            return tuple(self.ev(x, env) for x in t)
        f = getattr(self, "e_" + k.replace("?", "_opt"), None)
        if f is not None:
            return f(t, env)
        return self.generic(t, env)

    def e_insat(self, t, env):
        a, i, b = self.arr(self.ev(t[1], env)), self.int(self.ev(t[2], env)), self.ev(t[3], env)
        n, m = a.size(), b.size()
        if not 0 <= i <= n:
            raise OutOfRange()
        return listarr([a.get(k) for k in range(i)] + [b.get(k) for k in range(m)] + [a.get(k) for k in range(i, n)])

    def e_delat(self, t, env):
        a, i, m = self.arr(self.ev(t[1], env)), self.int(self.ev(t[2], env)), self.int(self.ev(t[3], env))
        n = a.size()
        if i < 0 or m < 0 or i + m > n:
            raise OutOfRange()
        return listarr([a.get(k) for k in range(i)] + [a.get(k) for k in range(i + m, n)])

    def e_popped(self, t, env):
        a = self.arr(self.ev(t[1], env))
        n = a.size()
        if n < 1:
            raise Reject()
        return listarr([a.get(k) for k in range(n - 1)])

    def generic(self, t, env):
        if t[0] not in UNINTERPRETED:
            if t[0] != "app" or t[1] not in UNINTERPRETED_OPS:
                raise Unknown("no interpretation of %s" % (t[1] if t[0] == "app" else t[0]))
        return Atom((t[0],) + tuple(self.vkey(self.ev(x, env)) if isinstance(x, tuple) else x for x in t[1:]))

    def bad(self, t, env):
        raise Unknown(t[0])
    e_unk = e_for_opt = e_undef = bad

    def e_phi(self, t, env):
        if t in env:
            return self.states[env[t][1]]
        raise Unknown("unbound")

    def force(self, v, depth=0):
        """evaluate all the elements of an array"""
        if isinstance(v, Arr):
            if v.atom:
                return v
            if v.two:
                r, c = v.rows(), v.cols()
                if r * c > 400:
                    raise Unknown("too large")
                d = {(i, j): self.force(v.get2(i, j)) for i in range(r) for j in range(c)}

                def get2(i, j):
                    if (i, j) not in d:
                        raise OutOfRange()
                    return d[i, j]
                return Arr(None, None, get2, lambda: r, lambda: c, two=True)
            n = v.size()
            if n > 400:
                raise Unknown("too large")
            return listarr([self.force(v.get(i)) for i in range(n)])
        if isinstance(v, Rec):
            return Rec(v.base, {k: self.force(x) for k, x in v.fields.items()})
        return v

    def e_lout(self, t, env):
        _, lid, q, trip, places, inits, ends, k = t
        n = self.int(self.ev(trip, env))
        vals = [self.force(self.ev(x, env)) for x in inits]
        if n > 60:
            raise Unknown("many iterations")
        for i in range(n):
            en = {**env, q: i}
            for m, v in zip(places, vals):
                self.states.append(v)
                en[("phi", lid, m)] = ("state", len(self.states) - 1)
            hit = [vs for f, vs in ends if all(self.truth(self.ev(c, en)) == b for c, b in f)]
            if len(hit) != 1:
                raise Reject()
            vals = [self.force(self.ev(x, en)) for x in hit[0]]
        return vals[k]

    def e_sorted(self, t, env):
        import functools
        _, old, sid, alts = t
        a = self.arr(self.ev(old, env))
        xs = [self.force(a.get(i)) for i in range(a.size())]
        if len(xs) > 60:
            raise Unknown("long sort")
        # any order of equivalent elements
        xs = [xs[i] for i in sorted(range(len(xs)), key=lambda i: self.h("sort", i))]

        def less(x, y):
            self.states += [x, y]
            en = {**env, ("phi", sid, "a"): ("state", len(self.states) - 2), ("phi", sid, "b"): ("state", len(self.states) - 1)}
            for f, v in alts:
                if all(self.truth(self.ev(c, en)) == b for c, b in f):
                    return self.truth(self.ev(v, en))
            raise Reject()
        return listarr(sorted(xs, key=functools.cmp_to_key(lambda x, y: -1 if less(x, y) else 1 if less(y, x) else 0)))

    def entries(self, m):
        """the distinct keys of a map"""
        if not isinstance(m, MapV) or m.base is not None:
            raise Unknown("unknown map")
        out = []
        for k, x in m.items:
            if not any(self.same(k, y) for y in out):
                out.append(k)
        return out

    def e_mapkey(self, t, env):
        m, i = self.ev(t[1], env), self.int(self.ev(t[2], env))
        ks = self.entries(m)
        if t[3][1] == "less":
            ks = sorted(ks, key=lambda k: (0, self.num(k)) if not (isinstance(k, Atom) and k.key[0] == "str") else (1, k.key[1]))
        else:
            ks = sorted(ks, key=lambda k: self.h("hash", self.vkey(k)))
        if not 0 <= i < len(ks):
            raise Reject()
        return ks[i]

    # stored entries of sparse matrices: the non-zero ones
    def nonzeros(self, inner, env):
        m, k, order = inner[1:4]
        a, n = self.arr(self.ev(m, env)), self.int(self.ev(k, env))
        if order[1] == "vec":
            r = [(i, 0, self.num(a.get(i))) for i in range(a.size())]
        elif order[1] == "row":
            if not 0 <= n < a.rows():
                raise OutOfRange()
            r = [(n, j, self.num(a.get2(n, j))) for j in range(a.cols())]
        else:
            if not 0 <= n < a.cols():
                raise OutOfRange()
            r = [(i, n, self.num(a.get2(i, n))) for i in range(a.rows())]
        return [x for x in r if x[2] != 0]

    def entry(self, t, env):
        d = topoly(t)
        ib = [a for m in d for a, p in m if a[0] == "inner"]
        if len(ib) != 1 or d.get(((ib[0], 1),)) != 1:
            raise Unknown("iterator")
        nz = self.nonzeros(ib[0], env)
        pos = self.int(self.ev(sub(t, ib[0]), env))
        if not 0 <= pos < len(nz):
            raise Reject()
        return nz[pos]

    def e_itval(self, t, env):
        return self.entry(t[1], env)[2]

    def e_trip(self, t, env):
        """a matrix from triplets: repeated positions add up"""
        r, c = self.int(self.ev(t[1], env)), self.int(self.ev(t[2], env))
        out = []
        self.segs(t[3][1] if t[3][0] == "segs" else (t[3],), env, out)
        d = {}
        for x in out:
            k = (self.int(self.field(x, "row")), self.int(self.field(x, "col")))
            if not (0 <= k[0] < r and 0 <= k[1] < c):
                raise OutOfRange()
            d[k] = d.get(k, Fraction(0)) + self.num(self.field(x, "value"))

        def get2(i, j):
            if not (0 <= i < r and 0 <= j < c):
                raise OutOfRange()
            return d.get((i, j), Fraction(0))
        return Arr(None, None, get2, lambda: r, lambda: c, two=True)

    def e_fexit(self, t, env):
        """index of the first iteration that leaves the loop"""
        n = None if t[2] == ("none",) else self.int(self.ev(t[2], env))
        for i in range(60 if n is None else n):
            en = {**env, t[1]: i}
            if not any(all(self.truth(self.ev(c, en)) == b for c, b in g) for g, _ in t[3]):
                return Fraction(i)
        if n is None:
            raise Unknown("long loop")
        return Fraction(n)

    def e_lastalt(self, t, env):
        _, q, trip, ends, init = t
        for i in reversed(range(self.int(self.ev(trip, env)))):
            en = {**env, q: i}
            hit = [v for f, v in ends if all(self.truth(self.ev(c, en)) == b for c, b in f)]
            if len(hit) != 1:
                raise Reject()
            return self.ev(hit[0], en)
        return self.ev(init, env)

    def e_num(self, t, env):
        return t[1]

    def e_bool(self, t, env):
        return t[1]

    def e_inf(self, t, env):
        return float("inf")

    def e_null(self, t, env):
        return Atom(("null",))

    def e_str(self, t, env):
        return Atom(t)

    def e_q(self, t, env):
        if t in env:
            return Fraction(env[t])
        raise Unknown("unbound")

    def e_ind(self, t, env):
        return Fraction(int(self.truth(self.ev(t[1], env))))

    def e_poly(self, t, env):
        ms = []
        vec = False
        for m, c in t[1]:
            fs = [(self.ev(a, env), p, a) for a, p in m]
            if any(isinstance(v, Arr) or (a[0] == "V") for v, _, a in fs):
                vec = True
            ms.append((c, fs))
        if not vec:
            return self.psum([(c, [(self.num(v), p) for v, p, _ in fs]) for c, fs in ms])
        arrs = []

        def at(get):
            out = []
            for c, fs in ms:
                out.append((c, [(self.num(get(self.arr(v))) if isinstance(v, Arr) or a[0] == "V" else self.num(v), p) for v, p, a in fs]))
            return self.psum(out)
        for c, fs in ms:
            for v, p, a in fs:
                if isinstance(v, Arr) or a[0] == "V":
                    arrs.append(self.arr(v))
        two = any(a.two for a in arrs)
        lead = next((a for a in arrs if a.two), arrs[0])
        return Arr(lambda i: at(lambda a: a.get(i)), lambda: self.common([a.size() for a in arrs]), lambda i, j: at(lambda a: a.get2(i, j)),
                   lambda: self.common([a.rows() for a in arrs]), lambda: self.common([a.cols() for a in arrs]), two=two)

    def common(self, ns):
        if len(set(ns)) != 1:
            raise OutOfRange()
        return ns[0]

    def psum(self, ms):
        acc = Fraction(0)
        for c, fs in ms:
            x = c
            for v, p in fs:
                for _ in range(abs(p)):
                    if p < 0:
                        if v == 0:
                            raise Reject()
                        x = x / v
                    else:
                        x = x * v
            acc = acc + x
        if isinstance(acc, float) and math.isnan(acc):
            raise Reject()
        return acc

    # conditions
    def ipoly(self, p, env):
        """integer-valued polynomial"""
        acc = 0
        for m, c in topoly(p).items():
            x = Fraction(c)
            for a, e in m:
                v = self.ev(a, env)
                v = self.int(v) if isinstance(v, Atom) else self.num(v)
                if e < 0:
                    raise Reject()
                x *= v ** e
            acc += x
        return acc

    def e_le(self, t, env):
        return self.ipoly(t[1], env) <= 0

    def eps(self, v):
        if isinstance(v, float) and abs(v) < 1e-9:
            return 0
        return v

    def e_fle(self, t, env):
        return self.eps(self.num(self.ev(t[1], env))) <= 0

    def e_flt(self, t, env):
        return self.eps(self.num(self.ev(t[1], env))) < 0

    def e_eq(self, t, env):
        p = t[1]
        # equality of opaque (possibly non-numeric) things
        d = topoly(p)
        if len(d) == 2 and all(len(m) == 1 and m[0][1] == 1 for m in d) and sorted(d.values()) == [-1, 1]:
            a, b = [self.ev(m[0][0], env) for m in d]
            if isinstance(a, Atom) and isinstance(b, Atom) and a.key not in self.nums and b.key not in self.nums:
                if a.key == b.key:
                    return True
                return self.num(a) == self.num(b)
        r = self.eps(self.num(self.ev(p, env)))
        if r != 0 and len(self.wishes) < 24 and not isinstance(r, float):
            # an unknown value that would make the equality hold
            for m, c in d.items():
                if len(m) == 1 and m[0][1] == 1:
                    a = self.ev(m[0][0], env)
                    if isinstance(a, Atom) and a.key not in self.given:
                        w = self.atomnum(a.key) - r / c
                        if a.key not in self.ints or w.denominator == 1:
                            self.wishes[a.key] = w
                        break
        return r == 0

    def e_not(self, t, env):
        return not self.truth(self.ev(t[1], env))

    def e_isnull(self, t, env):
        v = self.ev(t[1], env)
        if isinstance(v, Atom):
            if v.key == ("null",):
                return True
            if v.key[0] in ("addr", "new", "beg", "lambda", "ptrto"):
                return False
            return self.h("null", v.key) % 2 == 0
        if isinstance(v, Rec):
            return False
        raise Unknown("null test")

    def e_same(self, t, env):
        return self.same(self.ev(t[1], env), self.ev(t[2], env))

    def e_ite(self, t, env):
        return self.ev(t[2] if self.truth(self.ev(t[1], env)) else t[3], env)

    # places and records
    def e_fld(self, t, env):
        b = self.ev(t[1], env)
        return self.field(b, t[2])

    def field(self, b, n):
        if isinstance(b, Rec):
            if n in b.fields:
                return b.fields[n]
            if isinstance(b.base, tuple):
                return Atom(("fld", b.base, n))
            return self.field(b.base, n)
        if isinstance(b, Atom) and b.key[0] == "rec":
            for k, x in b.key[2]:
                if k == n:
                    return Atom(x) if isinstance(x, tuple) and x[0] != "n" else x[1] if isinstance(x, tuple) else x
        if isinstance(b, Atom) and b.key[0] == "call" and str(b.key[1]).startswith("new "):
            raise Unknown("field of an object whose constructor is not followed")
        return Atom(("fld", self.vkey(b), n))

    def e_rec(self, t, env):
        base = t[1]
        if base[0] in ("new", "default") or base in (("triplet",),):
            b = base
        else:
            b = self.ev(base, env)
        return Rec(b, {n: self.ev(x, env) for n, x in t[2]})

    def e_size(self, t, env):
        v = self.ev(t[1], env)
        if isinstance(v, Atom):
            return Fraction(self.atomsize(v.key))
        if isinstance(v, Arr):
            return Fraction(v.size())
        if isinstance(v, MapV):
            return Fraction(len(self.entries(v)))
        raise Unknown("size")

    # arrays
    def e_V(self, t, env):
        v = self.ev(t[1], env)
        if self.isnum(v):
            return v
        return self.arr(v)

    def e_elm(self, t, env):
        v = self.ev(t[1], env)
        i = t[2]
        if isinstance(v, MapV) or (isinstance(i, tuple) and i[0] == "str"):
            return self.mapget(v, self.ev(i, env))
        iv = self.ev(i, env)
        if isinstance(v, Atom) and isinstance(iv, Atom) and iv.key not in self.ints and self.nonint(iv.key):
            return Atom(("elm", v.key, self.vkey(iv)))
        n = self.int(iv)
        if self.isnum(v):
            return v
        return self.arr(v).get(n)

    def nonint(self, k):
        return k[0] in ("str",)

    def e_elm2(self, t, env):
        v = self.ev(t[1], env)
        return self.arr(v).get2(self.int(self.ev(t[2], env)), self.int(self.ev(t[3], env)))

    def filled(self, c, dims, env):
        dims = [self.int(self.ev(x, env)) for x in dims]
        if any(n < 0 for n in dims):
            raise Reject()

        def get(*ix):
            if any(not 0 <= i < n for i, n in zip(ix, dims)):
                raise OutOfRange()
            return c
        if len(dims) == 1:
            return Arr(get, lambda: dims[0], lambda i, j: get(max(i, j)))
        return Arr(lambda i: get(i, 0) if dims[1] == 1 else get(0, i), None, get, lambda: dims[0], lambda: dims[1], two=True)

    def e_const(self, t, env):
        return self.filled(self.ev(t[1], env), t[2:], env)

    def e_sized(self, t, env):
        return self.filled(Atom(("uninit",)), t[1:], env)

    def e_resized(self, t, env):
        if len(t) != 3:
            raise Unknown("resized matrix")
        old, n = self.arr(self.ev(t[1], env)), self.int(self.ev(t[2], env))
        if n < 0:
            raise Reject()

        def get(i):
            if not 0 <= i < n:
                raise OutOfRange()
            return old.get(i) if i < old.size() else Atom(("uninit",))
        return Arr(get, lambda: n)

    def e_vresized(self, t, env):
        old, n = self.arr(self.ev(t[1], env)), self.int(self.ev(t[2], env))
        if n < 0:
            raise Reject()

        def get(i):
            if not 0 <= i < n:
                raise OutOfRange()
            return old.get(i) if i < old.size() else self.ev(t[3], env)
        return Arr(get, lambda: n)

    def e_lam(self, t, env):
        if len(t) == 4:
            q, e = t[1], t[3]
            n = self.int(self.ev(t[2], env))

            def get(i):
                if not 0 <= i < n:
                    raise OutOfRange()
                return self.ev(e, {**env, q: i})
            return Arr(get, lambda: n)
        q, q2, e = t[1], t[3], t[5]
        r, c = self.int(self.ev(t[2], env)), self.int(self.ev(t[4], env))

        def get2(i, j):
            if not (0 <= i < r and 0 <= j < c):
                raise OutOfRange()
            return self.ev(e, {**env, q: i, q2: j})
        return Arr(None, None, get2, lambda: r, lambda: c, two=True)

    def e_list(self, t, env):
        return listarr([self.ev(x, env) for x in t[1]])

    def e_row(self, t, env):
        a, i = self.arr(self.ev(t[1], env)), self.int(self.ev(t[2], env))
        return Arr(lambda j: a.get2(i, j), lambda: a.cols())

    def e_col(self, t, env):
        a, j = self.arr(self.ev(t[1], env)), self.int(self.ev(t[2], env))
        return Arr(lambda i: a.get2(i, j), lambda: a.rows())

    def e_blk(self, t, env):
        a, o, n = self.arr(self.ev(t[1], env)), self.int(self.ev(t[2], env)), self.int(self.ev(t[3], env))

        def get(i):
            if not 0 <= i < n:
                raise OutOfRange()
            return a.get(o + i)
        return Arr(get, lambda: n)

    def e_blk2(self, t, env):
        a = self.arr(self.ev(t[1], env))
        r0, c0, nr, nc = (self.int(self.ev(x, env)) for x in t[2:])
        return Arr(None, None, lambda i, j: a.get2(r0 + i, c0 + j), lambda: nr, lambda: nc, two=True)

    def e_T(self, t, env):
        a = self.arr(self.ev(t[1], env))
        if not a.two and a._g2 is None:
            return a
        return Arr(a._g, None if a.two else a._s, lambda i, j: a.get2(j, i), lambda: a.cols(), lambda: a.rows(), two=a.two)

    def e_matvec(self, t, env):
        a, b = self.arr(self.ev(t[1], env)), self.arr(self.ev(t[2], env))

        def get(i):
            n = self.common([a.cols(), b.size()])
            if not 0 <= i < a.rows():
                raise OutOfRange()
            return self.psum([(Fraction(1), [(self.num(a.get2(i, k)), 1), (self.num(b.get(k)), 1)]) for k in range(n)])
        return Arr(get, lambda: a.rows())

    def e_matmul(self, t, env):
        a, b = self.arr(self.ev(t[1], env)), self.arr(self.ev(t[2], env))

        def get2(i, j):
            n = self.common([a.cols(), b.rows()])
            if not (0 <= i < a.rows() and 0 <= j < b.cols()):
                raise OutOfRange()
            return self.psum([(Fraction(1), [(self.num(a.get2(i, k)), 1), (self.num(b.get2(k, j)), 1)]) for k in range(n)])
        return Arr(None, None, get2, lambda: a.rows(), lambda: b.cols(), two=True)

    def e_cw(self, t, env):
        vs = [(self.ev(x, env), has_v(x)) for x in t[2:]]
        arrs = [self.arr(v) for v, h in vs if h or isinstance(v, Arr)]
        op = t[1]

        def at(get):
            return self.scalar(op, [get(self.arr(v)) if h or isinstance(v, Arr) else v for v, h in vs])
        if not arrs:
            return self.scalar(op, [v for v, _ in vs])
        return Arr(lambda i: at(lambda a: a.get(i)), lambda: self.common([a.size() for a in arrs]), lambda i, j: at(lambda a: a.get2(i, j)),
                   lambda: arrs[0].rows(), lambda: arrs[0].cols(), two=any(a.two for a in arrs))

    def scalar(self, op, a):
        if op == "select":
            return a[1] if self.truth(a[0]) else a[2]
        x = [self.num(v) for v in a]
        if op == "*":
            return x[0] * x[1]
        if op == "/":
            if x[1] == 0:
                raise Reject()
            return x[0] / x[1]
        if op == "sq":
            return x[0] * x[0]
        if op in ("lt", "le", "gt", "ge", "eq", "ne"):
            d = self.eps(x[0] - x[1])
            return {"lt": d < 0, "le": d <= 0, "gt": d > 0, "ge": d >= 0, "eq": d == 0, "ne": d != 0}[op]
        return self.fn(op, a, x)

    def fn(self, op, a, x):
        if op == "abs":
            return abs(x[0])
        if op == "max":
            return max(x)
        if op == "min":
            return min(x)
        if op == "sqrt":
            if x[0] < 0:
                raise Reject()
            if isinstance(x[0], Fraction):
                n, d = math.isqrt(x[0].numerator), math.isqrt(x[0].denominator)
                if n * n == x[0].numerator and d * d == x[0].denominator:
                    return Fraction(n, d)
            return math.sqrt(x[0])
        if op in ("floor", "ceil", "trunc"):
            if isinstance(x[0], float) and not math.isfinite(x[0]):
                return x[0]
            return Fraction(getattr(math, op)(x[0]))
        if op == "recip":
            if x[0] == 0:
                raise Reject()
            return 1 / x[0]
        if op == "div":
            if x[1] == 0:
                raise Reject()
            return x[0] / x[1]
        if op == "finite":
            return not (isinstance(x[0], float) and not math.isfinite(x[0]))
        if op == "nan":
            return False
        if op in ("idiv", "mod", "floordiv", "ceildiv"):
            if any(isinstance(y, float) or y.denominator != 1 for y in x) or x[1] == 0:
                raise Reject()
            p, q = int(x[0]), int(x[1])
            fl = p // q
            tr = abs(p) // abs(q) * (1 if (p < 0) == (q < 0) else -1)
            return Fraction({"idiv": tr, "mod": p - tr * q, "floordiv": fl, "ceildiv": -((-p) // q)}[op])
        return Atom(("app", op) + tuple(self.vkey(v) for v in a))

    def e_app(self, t, env):
        op = t[1]
        if op in ("abs", "max", "min", "sqrt", "floor", "ceil", "trunc", "recip", "div", "finite", "nan"):
            vs = [self.ev(x, env) for x in t[2:]]
            return self.fn(op, vs, [self.num(v) for v in vs])
        if op in ("isfinite", "isnan", "isinf") and len(t) == 3:
            v = self.num(self.ev(t[2], env))
            return {"isfinite": not isinstance(v, float) or math.isfinite(v), "isnan": isinstance(v, float) and math.isnan(v),
                    "isinf": isinstance(v, float) and math.isinf(v)}[op]
        if op == "nnz" and t[2][0] == "inner":
            return Fraction(len(self.nonzeros(t[2], env)))
        if op == "nonZeros":
            a = self.arr(self.ev(t[2], env))
            if a.two or a._g2 is not None:
                return Fraction(sum(self.num(a.get2(i, j)) != 0 for i in range(a.rows()) for j in range(a.cols())))
            return Fraction(sum(self.num(a.get(i)) != 0 for i in range(a.size())))
        if op in ("it_row", "it_col"):
            return Fraction(self.entry(t[2], env)[op == "it_col"])
        if op == "it_index":
            x = self.entry(t[2], env)
            ib = find_all(t[2], lambda y: y[0] == "inner")[0]
            return Fraction(x[1] if ib[3][1] == "row" else x[0])
        if op in ("idiv", "mod", "floordiv", "ceildiv"):
            vs = [self.ev(x, env) for x in t[2:]]
            return self.fn(op, vs, [Fraction(self.int(v)) for v in vs])
        if op in ("sum", "sumall") and len(t) == 3:
            a = self.arr(self.ev(t[2], env))
            if a.two:
                return self.psum([(Fraction(1), [(self.num(a.get2(i, j)), 1)]) for i in range(a.rows()) for j in range(a.cols())])
            return self.psum([(Fraction(1), [(self.num(a.get(i)), 1)]) for i in range(a.size())])
        if op == "dot" and len(t) == 4:
            a, b = self.arr(self.ev(t[2], env)), self.arr(self.ev(t[3], env))
            n = self.common([a.size(), b.size()])
            return self.psum([(Fraction(1), [(self.num(a.get(i)), 1), (self.num(b.get(i)), 1)]) for i in range(n)])
        if op in ("maxCoeff", "minCoeff") and len(t) == 3:
            a = self.arr(self.ev(t[2], env))
            xs = [self.num(a.get(i)) for i in range(a.size())]
            if not xs:
                raise Reject()
            return max(xs) if op == "maxCoeff" else min(xs)
        if op in ("all", "any", "count", "prod", "mean", "norm") and len(t) == 3:
            a = self.arr(self.ev(t[2], env))
            xs = [a.get2(i, j) for i in range(a.rows()) for j in range(a.cols())] if a.two else [a.get(i) for i in range(a.size())]
            if op in ("all", "any", "count"):
                ts = [self.truth(x) for x in xs]
                return all(ts) if op == "all" else any(ts) if op == "any" else Fraction(sum(ts))
            xs = [self.num(x) for x in xs]
            if op == "prod":
                r = Fraction(1)
                for x in xs:
                    r *= x
                return r
            if op == "mean":
                if not xs:
                    raise Reject()
                return sum(xs) / len(xs)
            return self.fn("sqrt", [], [sum((x * x for x in xs), Fraction(0))])
        if op in ("rows", "cols"):
            a = self.arr(self.ev(t[2], env))
            return Fraction(a.rows() if op == "rows" else a.cols())
        if op == "concat":
            xs = [self.ev(x, env) for x in t[2:]]
            if all(isinstance(x, Atom) and x.key[0] == "str" for x in xs):
                return Atom(("str", "".join(x.key[1] for x in xs)))
        if op == "haskey":
            m, kx = self.ev(t[2], env), self.ev(t[3], env)
            if isinstance(m, MapV):
                if any(self.same(k, kx) for k, _ in m.items):
                    return True
                if m.base is None:
                    return False
                m = m.base
            return Atom(("app", "haskey", self.vkey(m), self.vkey(kx)))
        if isinstance(op, str) and op.startswith("unk"):
            a = self.arr(self.ev(t[2], env))
            xs = [self.num(a.get2(i, j)) for i in range(a.rows()) for j in range(a.cols())] if a.two else [self.num(a.get(i)) for i in range(a.size())]
            if not xs:
                raise Reject()
            return max(xs) if op == "maxCoeff" else min(xs)
        return self.generic(t, env)

    # maps
    def e_emptymap(self, t, env):
        return MapV(None, [], self.ev(t[1], env) if len(t) > 1 else None)

    def e_minsert(self, t, env):
        m, k, x = self.ev(t[1], env), self.ev(t[2], env), self.ev(t[3], env) if len(t) > 3 else Fraction(1)
        if isinstance(m, MapV):
            if any(self.same(a, k) for a, _ in m.items):
                return m
            return MapV(m.base, m.items + [(k, x)], m.dflt)
        return MapV(m, [(k, x)])

    def mapget(self, m, k):
        if isinstance(m, MapV):
            for a, x in reversed(m.items):
                if self.same(a, k):
                    return x
            if m.base is None:
                if m.dflt is None:
                    raise Unknown("absent key")
                return m.dflt
            m = m.base
        return Atom(("elm", self.vkey(m), self.vkey(k)))

    def e_rd(self, t, env):
        v = self.ev(t[1], env)
        if isinstance(v, MapV):
            return self.mapget(v, self.ev(t[2][0], env))
        idx = [self.ev(x, env) for x in t[2]]
        if len(idx) == 1:
            return self.arr(v).get(self.int(idx[0]))
        return self.arr(v).get2(self.int(idx[0]), self.int(idx[1]))

    def e_st(self, t, env):
        base = self.ev(t[1], env)
        ents = t[2]
        if any(len(e[2]) == 1 and e[2][0][0] == "str" for e in ents) or isinstance(base, MapV) or t[1][0] == "fld" and t[1][2] in MAPS:
            items = []
            for quants, guards, idx, val in ents:
                def go(i, en):
                    if i == len(quants):
                        if all(self.truth(self.ev(c, en)) == b for c, b in guards):
                            items.append((self.ev(idx[0], en), self.ev(val, en)))
                        return
                    for j in range(self.int(self.ev(quants[i][1], en))):
                        go(i + 1, {**en, quants[i][0]: j})
                go(0, env)
            return MapV(base.base, base.items + items, base.dflt) if isinstance(base, MapV) else MapV(base, items)
        ov = {}
        for quants, guards, idx, val in ents:
            def go(i, en):
                if i == len(quants):
                    for c, b in guards:
                        if self.truth(self.ev(c, en)) != b:
                            return
                    k = tuple(self.int(self.ev(x, en)) for x in idx)
                    ov[k] = self.ev(val, en)
                    return
                q, n = quants[i]
                for j in range(self.int(self.ev(n, en))):
                    go(i + 1, {**en, q: j})
            go(0, env)
        if not ov:
            return base
        a = self.arr(base)
        one = all(len(k) == 1 for k in ov)
        if one:
            n = a.size()
            if any(not 0 <= k[0] < n for k in ov):
                raise OutOfRange()
            return Arr(lambda i: ov[(i,)] if (i,) in ov else a.get(i), lambda: n)
        if not all(len(k) == 2 for k in ov):
            raise Unknown("mixed indices")
        r, c = a.rows(), a.cols()
        if any(not (0 <= k[0] < r and 0 <= k[1] < c) for k in ov):
            raise OutOfRange()
        return Arr(None, None, lambda i, j: ov[(i, j)] if (i, j) in ov else a.get2(i, j), lambda: r, lambda: c, two=True)

    # sequences and sums
    def segs(self, segs, env, out):
        for s in segs:
            k = s[0]
            if k == "one":
                out.append(self.ev(s[1], env))
            elif k == "all":
                a = self.arr(self.ev(s[1], env))
                out.extend(a.get(i) for i in range(a.size()))
            elif k == "rep":
                out.extend([self.ev(s[2], env)] * max(0, self.int(self.ev(s[1], env))))
            elif k == "rng":
                a, o, n = self.arr(self.ev(s[1], env)), self.int(self.ev(s[2], env)), self.int(self.ev(s[3], env))
                if o < 0:
                    raise Reject()
                out.extend(a.get(o + i) for i in range(n))
            elif k == "for":
                for i in range(self.int(self.ev(s[2], env))):
                    en = {**env, s[1]: i}
                    n = 0
                    for g, b in s[3]:
                        if all(self.truth(self.ev(c, en)) == v for c, v in g):
                            n += 1
                            self.segs(b, en, out)
                    if n > 1:
                        raise Reject()
            else:
                raise Unknown(k)
            if len(out) > 2000:
                raise Unknown("long sequence")

    def e_seq(self, t, env):
        out = []
        self.segs(t[1], env, out)
        return listarr(out)

    def e_sum(self, t, env):
        if len(t) != 4:
            return self.generic(t, env)
        acc = None
        for i in range(self.int(self.ev(t[2], env))):
            en = {**env, t[1]: i}
            for g, b in t[3]:
                if all(self.truth(self.ev(c, en)) == v for c, v in g):
                    x = self.ev(b, en)
                    acc = x if acc is None else self.vadd(acc, x)
        return Fraction(0) if acc is None else acc

    def vadd(self, a, b):
        if not isinstance(a, Arr) and not isinstance(b, Arr):
            return self.num(a) + self.num(b)
        a, b = self.arr(a), self.arr(b)
        return Arr(lambda i: self.num(a.get(i)) + self.num(b.get(i)), lambda: a.size(), lambda i, j: self.num(a.get2(i, j)) + self.num(b.get2(i, j)),
                   lambda: a.rows(), lambda: a.cols(), two=a.two or b.two)

    def e_lastof(self, t, env):
        if self.int(self.ev(t[1], env)) > 0:
            return self.ev(t[2], env)
        return self.ev(t[3], env)

    def e_ptrto(self, t, env):
        return self.generic(t, env)

    # ------------------------------------------------------------ equality of values
    def same(self, a, b):
        if isinstance(a, (Fraction, float, bool)) or isinstance(b, (Fraction, float, bool)):
            if isinstance(a, bool) and isinstance(b, Atom):
                return self.truth(b) == a
            if isinstance(b, bool) and isinstance(a, Atom):
                return self.truth(a) == b
            x, y = self.num(a), self.num(b)
            if x == y:
                return True
            if isinstance(x, float) or isinstance(y, float):
                if math.isinf(x) or math.isinf(y):
                    return False
                return abs(x - y) <= 1e-9 * (1 + abs(x) + abs(y))
            return False
        if isinstance(a, Atom) and isinstance(b, Atom):
            return a.key == b.key or self.vkey(a) == self.vkey(b)
        if isinstance(a, (Atom, Arr)) and isinstance(b, (Atom, Arr)):
            x, y = self.arr(a), self.arr(b)
            if x.two or y.two:
                return x.rows() == y.rows() and x.cols() == y.cols() and all(self.same(x.get2(i, j), y.get2(i, j)) for i in range(x.rows()) for j in range(x.cols()))
            n = x.size()
            return n == y.size() and all(self.same(x.get(i), y.get(i)) for i in range(n))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        return self.vkey(a) == self.vkey(b)

    def e_evt(self, t, env):
        return Rec(("evt", t[1]), {str(i): self.ev(x, env) if isinstance(x, tuple) else x for i, x in enumerate(t[2:])})


def msame(V, a, b):
    """equal as multisets"""
    x, y = V.arr(a), V.arr(b)
    if x.size() != y.size():
        return False
    ys = [y.get(i) for i in range(y.size())]
    for i in range(x.size()):
        e = x.get(i)
        for j, z in enumerate(ys):
            try:
                if V.same(e, z):
                    del ys[j]
                    break
            except Unknown:
                continue
        else:
            return False
    return True


NOVAL = "no valuation satisfies the path condition"


CLOSED = {"poly", "num", "str", "bool", "q", "for", "sum", "ite", "seq", "one", "st", "rd", "elm", "rec", "new", "eq", "le", "fle", "flt", "same", "fld", "prj"}


def closed(t):
    """a term without inputs: its value is settled"""
    if not isinstance(t, tuple) or not t:
        return True
    if isinstance(t[0], str):
        if t[0] in ("num", "str", "bool", "new"):
            return True
        if t[0] == "q":
            return True
        if t[0] not in CLOSED:
            return False
        if t[0] == "rec":
            return closed(t[1]) and all(closed(v) for _, v in t[2])
        t = t[1:]
    return all(closed(x) for x in t)


def contradicts(c, b):
    """the condition has no inputs and its value is not b"""
    if not closed(c):
        return False
    vals = set()
    for i in range(2):
        V = Valuation(("closed", i), set(), set(), {})
        try:
            vals.add(bool(V.truth(V.ev(c, {}))))
        except (Reject, Unknown, RecursionError):
            return False
        if V.grown:
            return False
    return vals == {not b}


def disjoint(fa, fb, alias, want=30, tries=300, seed=11):
    """both path conditions are satisfiable, and none of the valuations satisfying one satisfies the other"""
    ints, nums = set(), set()
    A = sorted(fa.items(), key=lambda f: len(repr(f[0])))
    B = sorted(fb.items(), key=lambda f: len(repr(f[0])))
    n = [0, 0]
    for mi, mode in enumerate(modes(tuple(c for c, _ in A + B))):
        for side, (x, y) in enumerate(((A, B), (B, A))):
            got = 0
            for i in range(tries):
                if got >= want:
                    break
                V = Valuation((seed, mi, side, i), ints, nums, alias, **mode)
                try:
                    for rep in range(10):
                        V.grown = False
                        V.memo.clear()
                        V.hmemo = {k: v for k, v in V.hmemo.items() if k[0] != "n"}
                        V.assume_sizes(x)
                        ok = all(V.truth(V.ev(c, {})) == b for c, b in x)
                        if V.grown:
                            continue
                        if not ok:
                            break
                        both = all(V.truth(V.ev(c, {})) == b for c, b in y)
                        if V.grown:
                            continue
                        if both:
                            return False
                        got += 1
                        break
                except Reject:
                    continue
                except Unknown as e:
                    if str(e) == "too large":
                        continue
                    return False
                except RecursionError:
                    return False
            n[side] += got
    return min(n) >= want


def separate(x, y, facts, alias, multiset=False, want=6, tries=260, seed=7 + int(os.environ.get("VP_SEED", "0"))):
    """('differs', n, witness) | ('same', n, None) | ('unknown', n, why)"""
    facts = sorted(facts.items(), key=lambda f: len(repr(f[0])))
    r = None
    for strict in (True, False):
        # first over the inputs for which the reference reads only elements that exist
        r = separate1(x, y, facts, alias, multiset, want, tries, seed, strict)
        if r[0] != "unknown":
            return r
    return r


def separate1(x, y, facts, alias, multiset, want, tries, seed, strict):
    ints, nums = set(), set()
    want, tries = want * DEPTH, tries * DEPTH
    why, total = None, 0
    out = tested = 0
    ms = modes((x, y) + tuple(c for c, _ in facts))
    big = 0
    t0 = time.process_time()
    for mi, mode in enumerate(ms):
        acc = 0
        for i in range(tries if total or mi < 2 else 4 * tries):
            if acc >= want or time.process_time() - t0 > BUDGET * (mi + 1) / len(ms):
                break
            V = Valuation((seed, mi, i), ints, nums, alias, **mode)
            try:
                r = one(V, x, y, facts, multiset, strict)
            except Reject:
                if strict and not total and tested < 60:
                    tested += 1
                    if outside(Valuation((seed, mi, i), ints, nums, alias, **mode), x, y, facts):
                        out += 1
                continue
            except Unknown as e:
                why = str(e)
                if why == "too large":
                    big += 1
                    if big > 5:
                        break
                elif i > 30 and not acc:
                    break
                continue
            except RecursionError:
                return "unknown", total, "too deep"
            if r is None:
                continue
            acc += 1
            total += 1
            if r is not True:
                return "differs", total, r
            # values that make the equalities tested by the terms hold
            for k, w in list(V.wishes.items())[:4] if acc <= 3 else ():
                V = Valuation((seed, mi, i), ints, nums, alias, pins={k: w}, **mode)
                try:
                    r = one(V, x, y, facts, multiset, strict)
                except (Reject, Unknown, RecursionError):
                    continue
                if r is not None and r is not True:
                    return "differs", total, r
    if not total and out >= 12:
        return "differs", out, "an access outside its container, or operands of different sizes, on every input"
    if total < 5:
        return "unknown", total, why or NOVAL
    return "same", total, None


def outside(V, x, y, facts):
    """the reference has a value for these inputs, the other side leaves the range of a container"""
    try:
        V.given = dict(V.pins)
        for rep in range(10):
            V.grown = False
            V.pins = dict(V.given)
            V.spins = {}
            V.memo.clear()
            V.hmemo = {k: v for k, v in V.hmemo.items() if k[0] != "n"}
            V.assume_sizes(facts)
            ok = V.satisfy(facts)
            if V.grown:
                continue
            if not ok:
                return False
            m, V.memo, V.strict = V.memo, {}, True
            try:
                V.force(V.ev(y, {}))
            finally:
                V.memo, V.strict = m, False
            V.force(V.ev(y, {}))
            if V.grown:
                continue
            try:
                V.force(V.ev(x, {}))
            except OutOfRange:
                if V.grown:
                    continue
                return True
            return False
    except (Reject, Unknown, RecursionError):
        pass
    return False


def one(V, x, y, facts, multiset, strict=False):
    """True: equal; None: facts not satisfied; text: a separating valuation"""
    given = V.given = dict(V.pins)
    for rep in range(10):
        V.grown = False
        V.pins = dict(given)
        V.spins = {}
        V.memo.clear()
        V.hmemo = {k: v for k, v in V.hmemo.items() if k[0] != "n"}
        V.assume_sizes(facts)
        ok = V.satisfy(facts)
        if V.grown:
            continue
        if not ok:
            return None
        V.wishes.clear()
        a = V.ev(x, {})
        if strict:
            m, V.memo, V.strict = V.memo, {}, True
            try:
                V.force(V.ev(y, {}))
            finally:
                V.memo, V.strict = m, False
        b = V.ev(y, {})
        r = msame(V, a, b) if multiset else V.same(a, b)
        if V.grown:
            continue
        return True if r else describe(V, a, b)
    return None


def describe(V, a, b):
    try:
        return "%s vs %s" % (repr(V.vkey(a))[:160], repr(V.vkey(b))[:160])
    except Exception:
        return ""
