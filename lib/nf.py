"""Normal forms of the value numbers: the same function of the inputs gets the same term however it was computed."""
from fractions import Fraction
from terms import *
import terms as T


# ------------------------------------------------------------------------------------------------ facts
def lit(c, b):
    """normalised literal (NaN-insensitive): -> (cond, bool)"""
    while c[0] == "not":
        c, b = c[1], not b
    if c[0] == "flt" and not b:
        c, b = norm_cond(("fle", neg(c[1]))), True
    elif c[0] == "fle" and not b:
        c, b = norm_cond(("flt", neg(c[1]))), True
    elif c[0] == "le" and not b:
        c, b = norm_cond(("le", sub(NUM1, c[1]))), True
    if c[0] == "bool":
        return (TRUE, c[1] == b)
    return (c, b)


def lits(facts):
    it = facts.items() if isinstance(facts, dict) else facts
    out = {}
    for c, b in it:
        c, b = lit(c, b)
        if c == TRUE:
            if b:
                continue
        out[c] = b
    return out


def _rel(c, p, g, b):
    from engine import Engine
    return Engine.implied(None, c, p, g, b)


class _E:
    pass


def implied(c, fs):
    """truth of literal c under the literals fs, or None"""
    from engine import Engine
    if c[0] == "bool":
        return c[1]
    if c in fs:
        return fs[c]
    if c[0] in ("le", "eq", "flt", "fle"):
        eng = _IMPL
        for g, b in fs.items():
            r = eng.implied(c, c[1], g, b)
            if r is not None:
                return r
    return None


class _Impl:
    def implied(self, c, p, g, b):
        from engine import Engine
        return Engine.implied(self, c, p, g, b)


_IMPL = _Impl()


def consistent(f1, f2):
    """False when the two literal sets contradict each other"""
    if FALSE in f1 or FALSE in f2 or f1.get(TRUE) is False or f2.get(TRUE) is False:
        return False
    for c, b in f1.items():
        r = implied(c, f2)
        if r is not None and r != b:
            return False
    for c, b in f2.items():
        r = implied(c, f1)
        if r is not None and r != b:
            return False
    return True


def implied_le(a, b, fs):
    """a <= b under the facts: True, False or None"""
    if has_v(a) or has_v(b):
        return None
    d = sub(a, b)
    if d[0] == "num":
        return d[1] <= 0
    for k in ("fle", "le"):
        c, v = lit(norm_cond((k, d)), True)
        r = implied(c, fs)
        if r is not None:
            return r == v
    # a < b strictly is enough
    c, v = lit(norm_cond(("flt", d)), True)
    r = implied(c, fs)
    if r is not None and r == v:
        return True
    return None


def under(t, fs):
    """simplify conditional values under known facts"""
    if not isinstance(t, tuple) or not t:
        return t
    if not fs:
        return t
    its = find_all(t, lambda y: y[0] == "ite")
    ops = find_all(t, lambda y: y[0] == "app" and y[1] in ("max", "min", "abs"))
    if not its and not ops:
        return t
    m = {}
    for y in ops:
        xs = list(y[2:])
        if y[1] == "abs":
            r = implied_le(xs[0], NUM0, fs)
            if r is not None:
                m[y] = neg(xs[0]) if r else xs[0]
            continue
        keep = list(xs)
        for a in xs:
            for b in keep:
                if a != b and a in keep:
                    r = implied_le(a, b, fs)
                    # r: a <= b ; not r: b < a
                    if r is not None and (r if y[1] == "max" else not r):
                        keep.remove(a)
                        break
                    if r is None and y[1] == "min":
                        r2 = implied_le(b, a, fs)
                        if r2:
                            keep.remove(a)
                            break
                    if r is None and y[1] == "max":
                        r2 = implied_le(b, a, fs)
                        if r2 is False:
                            keep.remove(a)
                            break
        if len(keep) < len(xs) and keep:
            m[y] = app(y[1], *keep)
    for y in its:
        r = implied(y[1], fs)
        if r is not None:
            m[y] = under(y[2] if r else y[3], fs)
    if not m:
        return t
    return nf(subst(t, m))


# ------------------------------------------------------------------------------------------------ normal form
VALUE_CLASSES = []
_memo = {}


def nf(t):
    """bottom-up normalisation + canonical names of bound variables"""
    r = alpha(simp(t), 0, {})
    if find_all(r, lambda y: y[0] == "V" and y[1][0] in VEXPR):
        r2 = vlam(r)
        if r2 != r:
            r = alpha(simp(r2), 0, {})
    return r


# ------------------------------------------------------------------------------------------------ indicator form
_IND = [False]
NONNUM = ("null", "str", "seq", "rec", "addr", "new", "bool", "st", "V", "beg", "ptrto", "newobj", "le", "flt", "fle", "eq", "not", "isnull", "lastof")


def deep(t):
    """normal form in which numeric case distinctions are polynomials over 0/1 indicators of their conditions"""
    global _smemo
    _IND[0] = True
    old, _smemo = _smemo, {}
    try:
        for _ in range(4):
            r = alpha(simp(t), 0, {})
            if r == t:
                break
            t = r
        return seqform(t)
    finally:
        _IND[0] = False
        _smemo = old


def indic(c):
    """0/1 value of a condition"""
    c, pos = lit(c, True)
    if c == TRUE:
        return NUM1 if pos else NUM0
    if c[0] in ("fle", "le"):
        o = norm_cond(("flt", neg(c[1]))) if c[0] == "fle" else norm_cond(("le", sub(NUM1, c[1])))
        if o[0] != "bool" and (c[0] == "fle" or key(o) < key(c)):
            c, pos = o, not pos
    v = ("ind", c)
    return v if pos else sub(NUM1, v)


def idem(p):
    """I^2 = I, products of contradicting indicators vanish"""
    if p[0] != "poly" or not find_all(p, lambda y: y[0] == "ind"):
        return p
    out = {}
    for m, c in p[1]:
        inds = [a for a, _ in m if a[0] == "ind"]
        if inds:
            m2 = tuple(sorted(((a, 1 if a[0] == "ind" else q) for a, q in m), key=lambda x: key(x[0]))) if any(a[0] == "ind" and q != 1 for a, q in m) else m
            fs = {}
            dead = False
            drop = set()
            for a in inds:
                r = implied(a[1], fs)
                if r is False:
                    dead = True
                elif r is True:
                    drop.add(a)
                else:
                    fs[a[1]] = True
            if dead:
                continue
            if drop:
                m2 = tuple(x for x in m2 if x[0] not in drop)
        else:
            m2 = m
        out[m2] = out.get(m2, 0) + c
    return frompoly(out)


def isnumeric(v):
    return v[0] not in NONNUM and not has_v(v)


def seqform(t):
    """vectors given by an element function and sequences given by a loop are the same thing"""
    if not isinstance(t, tuple) or not t:
        return t
    t = tuple(seqform(x) if isinstance(x, tuple) else x for x in t)
    if t[0] == "V" and t[1][0] == "lam" and len(t[1]) == 4:
        return ("seq", (("for", t[1][1], t[1][2], (((), (("one", t[1][3]),)),)),))
    if t[0] == "V" and t[1][0] == "const" and len(t[1]) == 3:
        return ("seq", (("rep", t[1][2], t[1][1]),))
    return t


VEXPR = ("cw", "blk", "row", "col")


def vlam(t):
    """element-wise vector expressions -> one element function (so that they compare equal to loops over the elements)"""
    if not isinstance(t, tuple) or not t:
        return t
    if has_v(t) and (t[0] == "poly" or t[1][0] in VEXPR):
        note_sizes(t)
        n = simp(size_of(t))
        q = fresh_q()
        e = simp(elem(t, q))
        if not find_all(e, lambda y: y[0] == "elm" and y[1][0] in ("poly", "V") and (y[1][0] == "poly" or y[1][1][0] in VEXPR)):
            return ("V", ("lam", q, n, vlam(e)))
    return tuple(vlam(x) if isinstance(x, tuple) else x for x in t)


def note_sizes(t):
    pass


def collect_sizes(t, out):
    """operands of an element-wise operation that is certainly evaluated have the same size (Eigen asserts it)"""
    if not isinstance(t, tuple) or not t:
        return
    if t[0] == "ite":
        return
    if t[0] in ("for", "for?", "sum", "fexit") and len(t) == 4:
        for g, b in t[3]:
            if not g:
                collect_sizes(b, out)
        return
    if t[0] == "lout":
        collect_sizes(t[5], out)
        for g, b in t[6]:
            if not g:
                collect_sizes(b, out)
        return
    if t[0] == "st" and len(t) == 3:
        collect_sizes(t[1], out)
        for e in t[2]:
            if not e[1]:
                collect_sizes(e[3], out)
        return
    if t[0] == "V" and t[1][0] == "matvec":
        ns = {alpha(simp(x), 0, {}) for x in (cols_of(t[1][1]), size_of(t[1][2]))}
        if len(ns) > 1:
            out.add(tuple(sorted(ns, key=key)))
    vs = []
    if t[0] == "poly":
        for m, _ in t[1]:
            ws = [a for a, _ in m if a[0] == "V"]
            if len(ws) == 1:
                vs += ws
    elif t[0] == "V" and t[1][0] == "cw":
        vs = [x for x in t[1][2:] if has_v(x)]
    if len(vs) > 1:
        ns = {alpha(simp(size_of(x)), 0, {}) for x in vs}
        if len(ns) > 1:
            out.add(tuple(sorted(ns, key=key)))
    for x in t:
        if isinstance(x, tuple):
            collect_sizes(x, out)


def size_subst(eqs):
    """representatives of the sizes known to be equal"""
    m = {}

    def rep(x):
        while x in m:
            x = m[x]
        return x
    for ns in sorted(eqs, key=key):
        rs = sorted({rep(x) for x in ns}, key=lambda x: (0 if x[0] == "num" else 1 if x[0] == "poly" else 2, weight(x), key(x)))
        for x in rs[1:]:
            if x[0] not in ("num", "poly"):
                m[x] = rs[0]
    return {x: rep(x) for x in m}


_smemo = {}


def simp(t):
    if not isinstance(t, tuple) or not t:
        return t
    r = _smemo.get(t)
    if r is None:
        r = _simp(t)
        if len(_smemo) > 300000:
            _smemo.clear()
        _smemo[t] = r
        if r != t:
            for _ in range(8):
                r2 = _simp(r)
                if r2 == r:
                    break
                r = r2
            _smemo[t] = r
            _smemo[r] = r
    return r


def _simp(t):
    k = t[0]
    if k in ("num", "str", "bool", "null", "inf", "q"):
        return t
    if k == "poly":
        acc = NUM0
        for m, c in t[1]:
            term = ("num", c)
            for a, p in m:
                b = simp(a)
                for _ in range(abs(p)):
                    term = mul(term, b) if p > 0 else div(term, b)
            acc = add(acc, term)
        return idem(acc) if _IND[0] else acc
    n = tuple(simp(x) if isinstance(x, tuple) else x for x in t)
    n = renorm(n) if n != t else n
    if not n or not isinstance(n[0], str):
        return n
    k = n[0]
    f = RULES.get(k)
    return f(n) if f else n


def r_cond(n):
    return norm_cond(n)


def guards_lits(g):
    return tuple(sorted(lits(g).items(), key=key))


def ite(c, a, b):
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    if a == b:
        return a
    if c[0] == "not":
        return ite(c[1], b, a)
    c2, pos = lit(c, True)
    if c2 == TRUE:
        return a if pos else b
    if not pos:
        return ite(c2, b, a)
    c = c2
    if _IND[0] and isnumeric(a) and isnumeric(b):
        return idem(add(b, mul(indic(c), sub(a, b))))
    if c[0] == "eq" and a == NUM0 and not has_v(b):
        # p == 0 ? 0 : p * r
        d = topoly(c[1])
        if len(d) == 1:
            (mono, _), = d.items()
            if len(mono) == 1 and all(mono[0][0] in dict(m) and dict(m)[mono[0][0]] > 0 for m in topoly(b)):
                return b
    # max / min / abs shapes
    if c[0] in ("flt", "fle", "le"):
        p = c[1]             # p < 0 (or <=)
        d = sub(a, b)
        if not has_v(a) and not has_v(b):
            # condition a - b < 0 -> a : min(a,b) ; b - a < 0 -> max
            if c[0] != "le":
                if p == d:
                    return app("min", a, b)
                if p == neg(d):
                    return app("max", a, b)
                # e < 0 ? -e : e
                if a == neg(b) and (p == b or p == a):
                    return app("abs", a) if p == b else neg(app("abs", a))
            else:
                for off in (0, 1):
                    if p == add(d, num(off)):
                        return app("min", a, b)
                    if p == add(neg(d), num(off)):
                        return app("max", a, b)
    # canonical orientation of float comparisons: flt kept, fle p -> not flt(-p)
    if c[0] == "fle":
        return ("ite", ("flt", neg(c[1])), b, a)
    if c[0] == "le":
        # choose orientation with smaller key
        o = norm_cond(("le", sub(NUM1, c[1])))
        if key(o) < key(c):
            return ("ite", o, b, a)
    return ("ite", c, a, b)


def r_ite(n):
    return ite(n[1], n[2], n[3])


def alts_norm(alts, full=True):
    """[(guards, body)] -> merged: same body for complementary guards"""
    al = [(guards_lits(g), b) for g, b in alts]
    al = [(g, b) for g, b in al if not any(c == TRUE and v is False for c, v in g)]
    # identical bodies -> drop guards when the set of alternatives is exhaustive (it always is)
    if full and len({b for _, b in al}) == 1 and al:
        return [((), al[0][1])]
    # merge pairs that differ in one literal only
    ch = True
    while ch:
        ch = False
        for i in range(len(al)):
            for j in range(i + 1, len(al)):
                if al[i][1] == al[j][1]:
                    gi, gj = dict(al[i][0]), dict(al[j][0])
                    m = comp_merge(gi, gj)
                    if m is not None:
                        b = al[i][1]
                        al = [x for n_, x in enumerate(al) if n_ not in (i, j)] + [(tuple(sorted(m.items(), key=key)), b)]
                        ch = True
                        break
            if ch:
                break
    return sorted(al, key=key)


def r_same(n):
    a, b = n[1], n[2]
    if a == b:
        return ("bool", True)
    if a[0] == "str" and b[0] == "str":
        return ("bool", a[1] == b[1])
    return n


def r_fexit(n):
    """the first iteration that does not go on: alternatives that differ in one literal only are one"""
    al = alts_norm([(g, NUM0) for g, _ in n[3]], full=False)
    if any(not g for g, _ in al) and n[2] != ("none",):
        return n[2]
    if n[2][0] == "num" and 0 < n[2][1] <= 16:
        # few iterations: decided one by one as far as possible
        for i in range(int(n[2][1])):
            vals = [[(simp(subst(c, {n[1]: ("num", Fraction(i))})), b) for c, b in g] for g, _ in al]
            if any(all(c == ("bool", b) for c, b in g) for g in vals):
                continue
            if all(any(c == ("bool", not b) for c, b in g) for g in vals):
                return ("num", Fraction(i))
            break
        else:
            return n[2]
    return ("fexit", n[1], n[2], tuple(al))


def negl(c, b):
    return lit(c, not b)


def comp_merge(gi, gj):
    ki = set(gi.items())
    kj = set(gj.items())
    di, dj = ki - kj, kj - ki
    if len(di) == 1 and len(dj) == 1:
        (c, b), = di
        if negl(c, b) == next(iter(dj)):
            return dict(ki & kj)
    return None


def pick(al, f):
    """turn a complete set of guarded alternatives into one conditional value; f: body -> value"""
    if len(al) == 1:
        return f(al[0][1])
    # split on the first literal of the first alternative
    cands = [c for g, _ in al for c, b in g]
    for c in cands:
        pos, negs, ok = [], [], True
        for g, body in al:
            gd = dict(g)
            r = implied(c, gd)
            if r is None:
                ok = False
                break
            g2 = tuple((x, y) for x, y in g if implied(x, {c: r}) is None or x != c and implied(x, {c: r}) != y)
            (pos if r else negs).append((g2, body))
        if ok and pos and negs and len(pos) < len(al) and len(negs) < len(al):
            a, b = pick(pos, f), pick(negs, f)
            if a is None or b is None:
                return None
            return ite(c, a, b)
    return None


def r_seq(n):
    out = []
    for s in n[1]:
        out += seg_norm(s)
    # merge neighbouring rep of the same value
    res = []
    for s in out:
        if s[0] == "rep" and res and res[-1][0] == "rep" and res[-1][2] == s[2]:
            res[-1] = ("rep", add(res[-1][1], s[1]), s[2])
        else:
            res.append(s)
    if len(res) == 1 and res[0][0] == "all":
        return res[0][1]
    return ("seq", tuple(res))


def seg_norm(s):
    k = s[0]
    if k == "all":
        x = s[1]
        if x[0] == "seq":
            r = []
            for y in x[1]:
                r += seg_norm(y)
            return r
        if x[0] == "V":
            w = x[1]
            if w[0] == "const" and len(w) == 3:
                return seg_norm(("rep", w[2], w[1]))
            if w[0] == "sized" and w[1] == NUM0:
                return []
            if w[0] == "lam" and len(w) == 4:
                return seg_norm(("for", w[1], w[2], (((), (("one", w[3]),)),)))
        return [s]
    if k == "rep":
        if s[1][0] == "num":
            n = s[1][1]
            if n <= 0:
                return []
            if n <= 8 and n.denominator == 1:
                return [("one", s[2])] * int(n)
        return [s]
    if k == "rng":       # ('rng', base, start, n)
        if s[2] == NUM0 and s[3] == size_of(s[1]):
            return seg_norm(("all", s[1]))
        if s[1][0] == "seq" and s[3] is not None:
            off, i, segs = NUM0, 0, s[1][1]
            while i < len(segs) and off != s[2]:
                off = simp(add(off, seg_size(segs[i])))
                i += 1
            if off == s[2]:
                left, r = s[3], []
                while i < len(segs) and left != NUM0:
                    left = simp(sub(left, seg_size(segs[i])))
                    r += seg_norm(segs[i])
                    i += 1
                if left == NUM0:
                    return r
        return [s]
    if k in ("for", "for?"):
        _, q, n, alts = s
        al = []
        for g, body in alts_norm(alts):
            b = []
            for y in body:
                b += seg_norm(y)
            al.append((g, tuple(b)))
        al = alts_norm(al)
        if n == NUM0 or (n[0] == "num" and n[1] < 0):
            return []
        if not al or all(not b for _, b in al):
            return []
        if len(al) > 1 and all(len(b) == 1 and b[0][0] == "one" for _, b in al):
            v = pick(al, lambda b: b[0][1])
            if v is not None:
                al = [((), (("one", v),))]
        if len(al) == 1 and not al[0][0]:
            body = al[0][1]
            if k == "for" and n[0] == "num" and n[1].denominator == 1 and 0 < n[1] <= 6:
                r = []
                for i in range(int(n[1])):
                    for y in body:
                        r += seg_norm(simp(subst(y, {q: num(i)})))
                return r
            if len(body) == 1:
                y = body[0]
                if y[0] == "one":
                    v = y[1]
                    if not contains(v, q):
                        return seg_norm(("rep", n, v))
                    if v[0] == "elm" and v[2] == q and size_of(v[1]) == n:
                        return seg_norm(("all", v[1]))
                    if v[0] == "elm" and not contains(v[1], q):
                        d = sub(v[2], q)
                        if not contains(d, q):
                            return seg_norm(("rng", v[1], d, n))
                if y[0] == "rep" and not contains(y, q):
                    return seg_norm(("rep", mul(n, y[1]), y[2]))
        return [(k, q, n, tuple(al))]
    return [s]


def full_cover(base, ent):
    """value function (q, n, val) when the entry overwrites every element of base (1-d)"""
    quants, guards, idx, val = ent
    if guards or len(quants) != 1 or len(idx) != 1:
        return None
    q, n = quants[0]
    if idx[0] == q and n == size_of(base):
        return q, n, val
    return None


def r_st(n):
    """store stacks: drop dead entries, recognise full overwrites"""
    base, ents = n[1], list(n[2])
    # nested store base
    b = base
    if b[0] == "V" and b[1][0] == "st":
        return _simp_st(b[1][1], tuple(b[1][2]) + tuple(ents))
    if b[0] == "st":
        return _simp_st(b[1], tuple(b[2]) + tuple(ents))
    return _simp_st(base, tuple(ents))


def _simp_st(base, ents):
    ents = list(ents)
    # zero-trip and single-trip quantifiers
    out = []
    for quants, guards, idx, val in ents:
        guards = guards_lits(guards)
        if any(c == TRUE and b is False for c, b in guards):
            continue
        dead = False
        qs = []
        m = {}
        for q, c in quants:
            if m:
                c = simp(subst(c, m))
            if c[0] == "num" and c[1] <= 0:
                dead = True
            if c == NUM1:
                m[q] = NUM0
            else:
                qs.append((q, c))
        if dead:
            continue
        if m:
            idx, val, guards = simp(subst(idx, m)), simp(subst(val, m)), simp(subst(guards, m))
        out.append((tuple(qs), guards, idx, val))
    ents = out
    # last full overwrite kills what is before
    for i in range(len(ents) - 1, -1, -1):
        fc = full_cover(base, ents[i])
        if fc:
            q, n, v = fc
            ents = ents[i + 1:]
            if has_v(base) or base[0] == "V":
                base = ("V", ("lam", q, n, v)) if contains(v, q) else ("V", ("const", v, n))
            else:
                base = r_seq(("seq", (("for", q, n, (((), (("one", v),)),)),)))
            break
    # a later write to the same place makes an earlier one dead; writing back what is there changes nothing
    out = []
    for i, e in enumerate(ents):
        if not e[0] and any(not y[0] and not y[1] and y[2] == e[2] for y in ents[i + 1:]):
            continue
        if not out and not e[0] and e[3] == (elem(base, e[2][0]) if len(e[2]) == 1 else elem2(base, e[2][0], e[2][1]) if len(e[2]) == 2 else None):
            continue
        if out and not e[0] and e[3][0] in ("rd", "elm") and e[3] == simp(read_store(("st", base, tuple(out)), e[2])):
            continue
        out.append(e)
    ents = out
    if not ents:
        return base
    t = tiles(base, ents)
    if t is not None:
        return t
    # merge guarded alternatives writing the same place: consecutive entries with same quants/idx and complementary guards
    i = 0
    while i + 1 < len(ents):
        a, b = ents[i], ents[i + 1]
        if len(a[0]) == len(b[0]) and a[0] == b[0] and a[2] == b[2] and a[1] and b[1]:
            ga, gb = dict(a[1]), dict(b[1])
            if set(ga.items()) != set(gb.items()):
                m = comp_merge(ga, gb)
                if m is not None:
                    (c, pos), = set(ga.items()) - set(gb.items())
                    v = ite(c, a[3], b[3]) if pos else ite(c, b[3], a[3])
                    ents[i:i + 2] = [(a[0], tuple(sorted(m.items(), key=key)), a[2], v)]
                    return _simp_st(base, ents)
        i += 1
    # adjacent-constant element writes in canonical order when they commute
    ch = True
    while ch:
        ch = False
        for i in range(len(ents) - 1):
            a, b = ents[i], ents[i + 1]
            if key(b) < key(a) and disjoint(a, b):
                ents[i], ents[i + 1] = b, a
                ch = True
    r = ("st", base, tuple(ents))
    return r


def tiles(base, ents):
    """writes of consecutive ranges that cover a whole sequence -> the concatenation"""
    if base[0] != "seq":
        return None
    if any(e[1] or len(e[2]) != 1 or len(e[0]) > 1 for e in ents):
        return None
    if all(x[0] == "one" for x in base[1]) and all(not e[0] and e[2][0][0] == "num" and 0 <= e[2][0][1] < len(base[1]) for e in ents):
        l = list(base[1])
        for e in ents:
            l[int(e[2][0][1])] = ("one", e[3])
        return r_seq(("seq", tuple(l)))
    its = []
    for quants, _, idx, val in ents:
        if quants:
            q, n = quants[0]
            off = sub(idx[0], q)
            if contains(off, q):
                return None
            its.append([off, n, ("for", q, n, (((), (("one", val),)),))])
        else:
            its.append([idx[0], NUM1, ("one", val)])
    segs, pos = [], NUM0
    while its:
        nx = [i for i in its if const_diff(i[0], pos) == 0]
        if len(nx) != 1:
            return None
        its.remove(nx[0])
        segs.append(nx[0][2])
        pos = add(pos, nx[0][1])
    rest = sub(size_of(base), pos)
    if rest != NUM0:
        return None
    return r_seq(("seq", tuple(segs)))


def disjoint(a, b):
    if len(a[2]) != len(b[2]):
        return False
    for x, y in zip(a[2], b[2]):
        if x[0] == "str" and y[0] == "str":
            if x != y:
                return True
            continue
        d = sub(x, y)
        # ranges of the quantifiers
        lo, hi = rng(d, a[0] + b[0])
        if lo is not None and lo > 0:
            return True
        if hi is not None and hi < 0:
            return True
    return False


def rng(d, quants):
    """numeric bounds of a term linear in quantifiers with constant ranges (q in [0,n))"""
    p = topoly(d)
    lo = hi = Fraction(0)
    qs = dict(quants)
    for m, c in p.items():
        if m == ():
            lo += c
            hi += c
        elif len(m) == 1 and m[0][1] == 1 and m[0][0] in qs and qs[m[0][0]][0] == "num":
            n = qs[m[0][0]][1] - 1
            if c > 0:
                hi += c * n
            else:
                lo += c * n
        elif len(m) == 1 and m[0][1] == 1 and m[0][0] in qs:
            # unbounded above, >= 0
            if c > 0:
                hi = None
            else:
                lo = None
            if lo is None and hi is None:
                return None, None
            if hi is None or lo is None:
                # fall through using partial info
                return _rng_partial(p, qs)
        else:
            return None, None
    return lo, hi


def _rng_partial(p, qs):
    lo = hi = Fraction(0)
    for m, c in p.items():
        if m == ():
            lo = None if lo is None else lo + c
            hi = None if hi is None else hi + c
        elif len(m) == 1 and m[0][1] == 1 and m[0][0] in qs:
            n = qs[m[0][0]]
            if n[0] == "num":
                k = n[1] - 1
                if c > 0:
                    hi = None if hi is None else hi + c * k
                else:
                    lo = None if lo is None else lo + c * k
            elif c > 0:
                hi = None
            else:
                lo = None
        else:
            return None, None
    return lo, hi


def r_V(n):
    w = n[1]
    if w[0] in ("st",):
        r = r_st(w)
        return r if r[0] == "V" else ("V", r)
    if w[0] in ("V", "poly", "num"):
        return w
    if w[0] == "lam" and len(w) == 4:
        q, cnt, v = w[1], w[2], w[3]
        if not contains(v, q):
            return ("V", ("const", v, cnt))
        if v[0] == "elm" and v[2] == q and size_of(v[1]) == cnt:
            return v[1]
    if w[0] == "list":
        return n
    return n


def r_sum(n):
    """linear expansion: sums of single monomials with the loop-independent factors outside"""
    _, q, cnt, alts = n
    if cnt[0] == "num" and cnt[1].denominator == 1 and cnt[1] <= 6:
        acc = NUM0
        if len(alts) == 1 and not alts[0][0]:
            for i in range(max(0, int(cnt[1]))):
                acc = add(acc, simp(subst(alts[0][1], {q: num(i)})))
            return acc
    al = alts_norm2(alts)
    if len(al) > 1 or (al and al[0][0]):
        # complete alternatives?  add the implicit zero alternative
        v = pick_sum(al)
        if v is not None:
            al = [((), v)]
    if _IND[0] and all(isnumeric(v) for _, v in al):
        acc = NUM0
        for g, v in al:
            for c, b in g:
                i = indic(c)
                v = mul(v, i if b else sub(NUM1, i))
            acc = add(acc, v)
        al = [((), idem(acc))]
    acc = NUM0
    for g, v in al:
        z = zip_split(q, cnt, g, v)
        if z is not None:
            acc = add(acc, z)
            continue
        if has_v(v) and not (v[0] == "poly"):
            acc = add(acc, ("sum", q, cnt, ((g, v),)))
            continue
        for m, c in topoly(v).items():
            inner, outer = NUM1, ("num", c)
            for a, p in m:
                t = frompoly({((a, p),): Fraction(1)})
                if contains(a, q):
                    inner = mul(inner, t)
                else:
                    outer = mul(outer, t)
            if inner == NUM1 and not g:
                acc = add(acc, mul(outer, cnt))
            elif not g and triangle(q, cnt, inner) is not None:
                acc = add(acc, mul(outer, triangle(q, cnt, inner)))
            else:
                acc = add(acc, mul(outer, sum1(q, cnt, g, inner)))
    return acc


def zip_split(q, cnt, g, v):
    """sum over the positions of concatenated sequences -> sum of the sums over their pieces"""
    xs = find_all((g, v), lambda y: y[0] == "elm" and y[2] == q and y[1][0] == "seq" and
                  (len(y[1][1]) > 1 or (len(y[1][1]) == 1 and y[1][1][0][0] in ("for", "rep"))) and not contains(y[1], q))
    if not xs:
        return None
    xs = [x for x in xs if simp(size_of(x[1])) == cnt]
    if not xs:
        return None
    seqs = [x[1][1] for x in xs]

    def inst(es, pos):
        m = dict(zip(xs, es))
        g2 = tuple((subst(c, m), b) for c, b in g)
        v2 = subst(v, m)
        if contains(v2, q) or any(contains(c, q) for c, _ in g2):
            if pos is None:
                raise ZipFail()
            v2 = subst(v2, {q: pos})
            g2 = tuple((subst(c, {q: pos}), b) for c, b in g2)
        return tuple((simp(c), b) for c, b in g2), simp(v2)
    try:
        r = zip_sum(seqs, inst, NUM0)
    except ZipFail:
        return None
    return r


class ZipFail(Exception):
    pass


def zip_sum(seqs, f, off):
    acc = NUM0
    if len({len(s) for s in seqs}) != 1:
        raise ZipFail()
    for segs in zip(*seqs):
        sizes = {seg_size(s) for s in segs}
        if len(sizes) != 1:
            fr = [s for s in segs if s[0] == "for"]
            if len(fr) != len(segs):
                raise ZipFail()
        kinds = {s[0] for s in segs}
        if kinds == {"one"}:
            g, t = f([s[1] for s in segs], off)
            acc = add(acc, gsum(g, t))
        elif "for" in kinds and any(len(s[3]) > 1 or len(s[3][0][1]) != 1 or s[3][0][0] or s[3][0][1][0][0] != "one" for s in segs if s[0] == "for"):
            if kinds != {"for"}:
                raise ZipFail()
            q0, n0 = segs[0][1], segs[0][2]
            alts = []
            for s in segs:
                if s[2] != n0:
                    raise ZipFail()
                alts.append([(simp(subst(g, {s[1]: q0})), simp(subst(b, {s[1]: q0}))) for g, b in s[3]])
            al0 = alts[0]
            out = []
            for i, (g, _) in enumerate(al0):
                bodies = []
                for al in alts:
                    m = [b for g2, b in al if set(g2) == set(g)]
                    if len(m) != 1:
                        raise ZipFail()
                    bodies.append(m[0])
                out.append((g, zip_sum(bodies, f, None)))
            acc = add(acc, r_sum(("sum", q0, n0, tuple(out))))
        else:
            fr = [s for s in segs if s[0] == "for"]
            q0 = fr[0][1] if fr else fresh_q()
            n0 = seg_size(segs[0])
            es = []
            for s in segs:
                if s[0] == "for":
                    es.append(subst(s[3][0][1][0][1], {s[1]: q0}))
                elif s[0] == "rep":
                    es.append(s[2])
                elif s[0] == "all":
                    es.append(elem(s[1], q0))
                elif s[0] == "rng":
                    es.append(elem(s[1], add(s[2], q0)))
                else:
                    raise ZipFail()
            g, t = f(es, None if off is None else add(off, q0))
            acc = add(acc, r_sum(("sum", q0, n0, ((g, t),))))
        if off is not None:
            off = simp(add(off, seg_size(segs[0])))
    return acc


def gsum(g, t):
    if not g:
        return t
    v = t
    for c, b in g:
        v = ite(c, v, NUM0) if b else ite(c, NUM0, v)
    return v


_fq = [0]


def fresh_q():
    _fq[0] += 1
    return ("q", "z%d" % _fq[0])


def triangle(q, cnt, inner):
    """sum over i of g(i) * sum over j>i of g(j)  =  ((sum g)^2 - sum g^2) / 2"""
    d = topoly(inner)
    if len(d) != 1:
        return None
    (m, c), = d.items()
    ss = [a for a, p in m if a[0] == "sum" and p == 1 and contains(a[2], q)]
    if len(ss) != 1 or c != 1:
        return None
    s = ss[0]
    if len(s[3]) != 1 or s[3][0][0]:
        return None
    g = frompoly({tuple(x for x in m if x[0] != s): Fraction(1)})
    p, n, h = s[1], s[2], s[3][0][1]
    j = fresh_q()
    if sub(n, sub(sub(cnt, q), NUM1)) != NUM0:
        return None
    hj = simp(subst(h, {p: sub(sub(j, q), NUM1)}))
    if contains(hj, q) or simp(subst(g, {q: j})) != hj:
        return None
    a = r_sum(("sum", q, cnt, (((), g),)))
    b = r_sum(("sum", q, cnt, (((), mul(g, g)),)))
    return mul(num(Fraction(1, 2)), sub(mul(a, a), b))


def sum1(q, cnt, g, inner):
    if not g and inner[0] == "elm" and inner[2] == q and size_of(inner[1]) == cnt and not contains(inner[1], q):
        return sum_all(inner[1])
    return ("sum", q, cnt, ((g, inner),))


def sum_all(v):
    """sum of all the elements of a container"""
    if v[0] == "seq":
        acc = NUM0
        for s in v[1]:
            acc = add(acc, sum_seg(s))
        return acc
    return ("app", "sumall", v)


def sum_seg(s):
    if s[0] == "one":
        return s[1]
    if s[0] == "rep":
        return mul(s[1], s[2])
    if s[0] == "all":
        return sum_all(s[1])
    if s[0] == "for":
        _, q, n, alts = s
        out = []
        for g, b in alts:
            t = NUM0
            for y in b:
                t = add(t, sum_seg(y))
            out.append((g, t))
        return r_sum(("sum", q, n, tuple(out)))
    return ("app", "sumseg", s)


def alts_norm2(alts):
    al = [(guards_lits(g), b) for g, b in alts]
    al = [(g, b) for g, b in al if b != NUM0 and not any(c == TRUE and v is False for c, v in g)]
    ch = True
    while ch:
        ch = False
        for i in range(len(al)):
            for j in range(i + 1, len(al)):
                if al[i][1] == al[j][1]:
                    m = comp_merge(dict(al[i][0]), dict(al[j][0]))
                    if m is not None:
                        b = al[i][1]
                        al = [x for n_, x in enumerate(al) if n_ not in (i, j)] + [(tuple(sorted(m.items(), key=key)), b)]
                        ch = True
                        break
            if ch:
                break
    return sorted(al, key=key)


def pick_sum(al):
    """guarded alternatives of a summand (missing alternatives are zero) -> one conditional value"""
    if all(not g for g, _ in al):
        return None
    c = None
    for g, _ in al:
        if g:
            c = g[0][0]
            break
    pos, negs = [], []
    for g, body in al:
        gd = dict(g)
        r = implied(c, gd)
        if r is None:
            pos.append((g, body))
            negs.append((g, body))
            continue
        g2 = tuple((x, y) for x, y in g if x != c and implied(x, {c: r}) is None)
        (pos if r else negs).append((g2, body))

    def side(xs):
        if not xs:
            return NUM0
        if len(xs) == 1 and not xs[0][0]:
            return xs[0][1]
        if all(not g for g, _ in xs):
            return None
        return pick_sum(xs)
    if len(pos) == len(al) and len(negs) == len(al):
        return None
    a, b = side(pos), side(negs)
    if a is None or b is None:
        return None
    if has_v(a) or has_v(b):
        return None
    return ite(c, a, b)


def r_lastof(n):
    _, trip, v, init = n
    return n


def r_app(n):
    if n[1] in ("max", "min", "abs"):
        r = app(n[1], *n[2:])
        return r
    if n[1] == "sum" and len(n) == 3 and has_v(n[2]):
        v = n[2]
        q = fresh_q()
        note_sizes(v)
        e = simp(elem(v, q))
        if not (e[0] == "elm" and e[1] == v and (v[0] == "poly" or v[1][0] in VEXPR)):
            return r_sum(("sum", q, simp(size_of(v)), (((), e),)))
    return n


def r_elm(n):
    v = n[1]
    if v[0] == "V" and v[1][0] == "lam" and len(v[1]) == 4:
        return simp(subst(v[1][3], {v[1][1]: n[2]}))
    if v[0] == "V" and v[1][0] == "const":
        return v[1][1]
    if v[0] in ("seq", "V", "poly", "st"):
        r = elem(v, n[2])
        if r[0] == "rd":
            r = resolve_rd(r)
        return r
    return n


def r_rd(n):
    return resolve_rd(n)


def resolve_rd(n):
    """read through a store stack at a symbolic index: resolve full overwrites"""
    v, idx = n[1], n[2]
    if v[0] != "st":
        return simp(elem(v, idx[0]) if len(idx) == 1 else elem2(v, idx[0], idx[1]))
    base, ents = v[1], v[2]
    if not ents:
        return elem(base, idx[0]) if len(idx) == 1 else elem2(base, idx[0], idx[1])
    quants, guards, eidx, val = ents[-1]
    if len(eidx) != len(idx):
        return n
    rest = ("st", base, ents[:-1]) if len(ents) > 1 else base
    if not quants:
        if all(const_diff(a, b) == 0 for a, b in zip(eidx, idx)):
            if not guards:
                return val
        elif any(const_diff(a, b) not in (None, 0) for a, b in zip(eidx, idx)):
            return simp(("rd", ("st", base, ents[:-1]), idx)) if len(ents) > 1 else (elem(base, idx[0]) if len(idx) == 1 else elem2(base, idx[0], idx[1]))
        return n
    m = {}
    for (q, c), a, b in zip(quants, eidx, idx):
        pass
    # each index is a quantifier plus offset
    used = set()
    for a, b in zip(eidx, idx):
        qs = [q for q, _ in quants if contains(a, q)]
        if len(qs) != 1:
            if not qs and const_diff(a, b) == 0:
                continue
            return n
        q = qs[0]
        off = sub(a, q)
        if contains(off, q):
            return n
        m[q] = sub(b, off)
        used.add(q)
    if used != {q for q, _ in quants}:
        return n
    # in range for certain?
    cov = True
    for q, c in quants:
        if contains(c, q):
            cov = False
        i = m[q]
        # index is itself a canonical bound variable of the whole extent or the cover is total
        if not total(base, eidx, q, c):
            cov = False
    if cov and not guards:
        return simp(subst(val, m))
    return n


def total(base, eidx, q, c):
    if len(eidx) == 1:
        return eidx[0] == q and c == size_of(base)
    for pos, a in enumerate(eidx):
        if a == q:
            return c == (rows_of(base) if pos == 0 else cols_of(base))
    return False


def r_rec(n):
    base, fl = n[1], n[2]
    names = {k for k, _ in fl}
    fl = tuple(sorted(fl))
    cl = None
    if base[0] == "new":
        c = [x for x in VALUE_CLASSES if x[0] == base[1].replace("const ", "")]
        cl = c[0] if c else None
        if cl is None:
            return ("rec", base, fl)
    else:
        c = [x for x in VALUE_CLASSES if names <= x[1]]
        if len(c) > 1 and base[0] == "fld":
            pass
        if len(c) == 1:
            cl = c[0]
    if cl is None:
        fl2 = tuple((k, v) for k, v in fl if v != project(base, k))
        return ("rec", base, fl2) if fl2 else base
    d = dict(fl)
    for k in cl[1]:
        if k not in d:
            if base[0] == "new":
                return ("rec", base, fl)
            d[k] = project(base, k)
    # all the fields of one other value: that value
    bs = {v[1] for k, v in d.items() if v[0] == "fld" and v[2] == k}
    if len(bs) == 1 and all(v[0] == "fld" and v[2] == k for k, v in d.items()):
        return bs.pop()
    return ("rec", ("new", cl[0]), tuple(sorted(d.items())))


def r_ind(n):
    return indic(n[1])


def r_lout(n):
    return n


RULES = {"fexit": r_fexit, "same": r_same, "le": r_cond, "fle": r_cond, "flt": r_cond, "eq": r_cond, "ite": r_ite, "seq": r_seq, "st": r_st, "V": r_V, "sum": r_sum,
         "app": r_app, "rec": r_rec, "ind": r_ind, "elm": r_elm, "rd": r_rd}


# ------------------------------------------------------------------------------------------------ alpha renaming
def alpha(t, d, memo):
    if not isinstance(t, tuple) or not t:
        return t
    mk = (t, d)
    r = memo.get(mk)
    if r is not None:
        return r
    k = t[0]
    if k in ("num", "str", "bool", "null", "inf", "q"):
        r = t
    elif k in ("for", "for?", "sum", "fexit") and len(t) == 4:
        q = ("q", "#%d" % d)
        body = subst(t[3], {t[1]: q})
        al = [(tuple(sorted(((alpha(c, d + 1, memo), b) for c, b in g), key=key)), alpha(b, d + 1, memo)) for g, b in body]
        r = (k, q, alpha(t[2], d, memo), tuple(sorted(al, key=key)))
    elif k == "lam" and len(t) == 4:
        q = ("q", "#%d" % d)
        r = (k, q, alpha(t[2], d, memo), alpha(subst(t[3], {t[1]: q}), d + 1, memo))
    elif k == "lam" and len(t) == 6:
        q, q2 = ("q", "#%d" % d), ("q", "#%d" % (d + 1))
        r = (k, q, alpha(t[2], d, memo), q2, alpha(t[4], d, memo), alpha(subst(t[5], {t[1]: q, t[3]: q2}), d + 2, memo))
    elif k == "st" and len(t) == 3:
        ents = []
        for quants, guards, idx, val in t[2]:
            m = {}
            qs = []
            dd = d
            for q, c in quants:
                nq = ("q", "#%d" % dd)
                qs.append((nq, alpha(subst(c, m), dd, memo)))
                m[q] = nq
                dd += 1
            ents.append((tuple(qs), tuple(sorted(((alpha(subst(c, m), dd, memo), b) for c, b in guards), key=key)),
                         alpha(subst(idx, m), dd, memo), alpha(subst(val, m), dd, memo)))
        r = (k, alpha(t[1], d, memo), tuple(ents))
    elif k == "poly":
        acc = NUM0
        for m, c in t[1]:
            term = ("num", c)
            for a, p in m:
                b = alpha(a, d, memo)
                for _ in range(abs(p)):
                    term = mul(term, b) if p > 0 else div(term, b)
            acc = add(acc, term)
        r = acc
    else:
        r = tuple(alpha(x, d, memo) if isinstance(x, tuple) else x for x in t)
        if r != t:
            r = renorm(r)
    memo[mk] = r
    return r


# ------------------------------------------------------------------------------------------------ known?
OPAQUE = ("unk", "lout", "for?", "lastalt", "trip", "undef", "phi")


def opaque(t):
    """sub-terms the analysis does not understand"""
    return find_all(t, lambda y: y[0] in OPAQUE or (y[0] == "app" and len(y) > 1 and isinstance(y[1], str) and y[1].startswith("unk")))


def unknown(t):
    """sub-terms that have no interpretation: recurrences of loops have one"""
    lids = {x[1] for x in find_all(t, lambda y: y[0] == "lout")} | {x[2] for x in find_all(t, lambda y: y[0] == "sorted")}
    return [y for y in opaque(t) if y[0] not in ("lout", "lastalt", "trip") and not (y[0] == "phi" and y[1] in lids)]
