"""What the analyses know about the C++ standard library and Eigen (trusted semantics of external code)."""
import re
from terms import *
from program import strip_targs

TABLE = {}


def model(*names):
    def deco(fn):
        for n in names:
            TABLE[n] = fn
        return fn
    return deco


def base_cls(f):
    return f.rsplit("::", 1)[0] if "::" in f else ""


def last(f):
    return f.rsplit("::", 1)[-1]


def find(f, e):
    h = TABLE.get(f)
    if h:
        return h
    ns = f.split("::", 1)[0]
    ls = last(f)
    if ns == "Eigen":
        h = TABLE.get("Eigen::*::" + ls)
        if h:
            return h
    if ns in ("std", "__gnu_cxx"):
        h = TABLE.get("std::*::" + ls)
        if h:
            return h
    if ns == "console_bridge" or f in ("printf", "fprintf", "perror", "puts", "fflush", "vprintf", "fputs"):
        return ignore
    if ns == "boost" and "format" in f:
        return ignore
    return None


def obj(E, objx, arrow, st):
    return E.objplace(objx, st, arrow)


def val_of(E, s, p, v, t=None):
    return E.rd(s, p, t) if p is not None else v


def nargs(E, args, s):
    return E.rvs([a["e"] if isinstance(a, dict) and a.get("k") == "defarg" else a for a in args], s)


def ret1(E, st, args, fn):
    """pure function of argument values"""
    out = []
    for s, vs in nargs(E, args, st):
        out.append((s, None, fn(*vs) if s.status == "normal" else NULL))
    return out


def with_obj(fn):
    """handler(E, s, p, v, args_vals, e) -> (place, value); object and arguments evaluated"""
    def h(E, f, e, objx, arrow, args, st):
        out = []
        if objx is None:
            return E.opaque_call(e, f, None, None, args, st)
        for s, p, v in obj(E, objx, arrow, st):
            if s.status != "normal":
                out.append((s, None, NULL))
                continue
            for s2, vs in nargs(E, args, s):
                if s2.status != "normal":
                    out.append((s2, None, NULL))
                    continue
                rp, rvv = fn(E, s2, p, v, vs, e)
                out.append((s2, rp, rvv))
        return out
    return h


def ignore(E, f, e, objx, arrow, args, st):
    """output only: arguments are evaluated for their effects, nothing else happens"""
    cur = [st]
    lst = ([objx] if objx is not None else []) + list(args)
    first = None
    res = []
    cur = [(st, None)]
    for i, a in enumerate(lst):
        nxt = []
        for s, p0 in cur:
            if s.status != "normal":
                nxt.append((s, p0))
                continue
            if i == 0:
                for s2, p, v in E.lv(a, s):
                    nxt.append((s2, p))
            else:
                for s2, v in E.rv(a, s):
                    nxt.append((s2, p0))
        cur = nxt
    return [(s, p, ("void",) if p is None else None) for s, p in cur]


# ------------------------------------------------------------------ smart pointers, utility
@model("std::move", "std::forward", "std::as_const", "std::ref", "std::cref")
def m_move(E, f, e, objx, arrow, args, st):
    return E.lv(args[0], st)


@model("std::__shared_ptr_access::operator*", "std::__shared_ptr_access::operator->", "std::unique_ptr::operator*",
       "std::unique_ptr::operator->", "std::shared_ptr::operator*", "std::shared_ptr::operator->", "std::__shared_ptr::operator->")
def m_ptr(E, f, e, objx, arrow, args, st):
    out = []
    for s, p, v in obj(E, objx, arrow, st):
        if s.status != "normal":
            out.append((s, None, NULL))
            continue
        pv = val_of(E, s, p, v)
        if f.endswith("->"):
            out.append((s, None, pv))
        else:
            out.append((s, E.deref(pv), None))
    return out


@model("std::__shared_ptr::get", "std::unique_ptr::get", "std::shared_ptr::get", "std::reference_wrapper::get")
def m_get(E, f, e, objx, arrow, args, st):
    out = []
    for s, p, v in obj(E, objx, arrow, st):
        out.append((s, None, val_of(E, s, p, v) if s.status == "normal" else NULL))
    return out


@model("std::__shared_ptr::operator bool", "std::unique_ptr::operator bool", "std::shared_ptr::operator bool", "std::function::operator bool")
@with_obj
def m_ptrbool(E, s, p, v, vs, e):
    return None, cnot(ceq(val_of(E, s, p, v), NULL))


@model("std::__shared_ptr::reset", "std::unique_ptr::reset", "std::shared_ptr::reset")
@with_obj
def m_reset(E, s, p, v, vs, e):
    E.write(s, p, vs[0] if vs else NULL, e.get("ln"))
    return None, ("void",)


@model("std::make_shared", "std::make_unique")
def m_make(E, f, e, objx, arrow, args, st):
    t = e.get("t", "")
    m = re.match(r"^(?:const )?std::(?:shared_ptr|unique_ptr)<(.*)>$", t)
    inner = m.group(1).split(", std::default_delete")[0] if m else "?"
    # try the class's constructor
    q = strip_targs(inner).replace("const ", "")
    if e.get("targ") in E.P.cls_q:
        q = e["targ"]
    c = E.P.cls_q.get(q)
    out = []
    if c is not None:
        name = q.split("::")[-1]
        cands = [fn for fn in E.P.fns(q + "::" + name, lambda x: x.get("ctor")) if len(fn["params"]) >= len(args)]
        cands = [fn for fn in cands if len(fn["params"]) == len(args)] or cands
        if len(cands) == 1 and E.may_inline(cands[0], st) and len(cands[0]["params"]) == len(args):
            tmp = ("newobj", q, E.fresh())
            for s, outs in E.bind_args(cands[0], args, st, tmp, dyn=q):
                for o in outs:
                    if o.status == "return":
                        o.status = "normal"
                    o.trace.append(_ev("new", q, o, e, tmp))
                    out.append((o, None, ("addr", tmp) if o.status == "normal" else NULL))
            return out
    for s, vs in nargs(E, args, st):
        tmp = ("newobj", q, E.fresh())
        if s.status == "normal":
            s.mem[tmp] = ("call", "new " + q) + tuple(vs)
            s.trace.append(_ev("new", q, s, e, tmp, tuple(vs)))
        out.append((s, None, ("addr", tmp)))
    return out


def _ev(kind, name, s, e, place, args=()):
    from engine import Event
    return Event(kind, name=name, obj=place, args=args, line=e.get("ln"), file=s.frame.file, val=("addr", place))


@model("std::make_pair", "std::make_tuple", "std::tie")
def m_pair(E, f, e, objx, arrow, args, st):
    return ret1(E, st, args, lambda *vs: ("rec", ("pair",), tuple((n, x) for n, x in zip(("first", "second", "third", "fourth"), vs))))


@model("std::swap")
def m_swap(E, f, e, objx, arrow, args, st):
    out = []
    for s, ps in E.lvs(args, st):
        if s.status == "normal":
            a, b = ps[0][0], ps[1][0]
            va, vb = E.read(s, a), E.read(s, b)
            E.write(s, a, vb, e.get("ln"))
            E.write(s, b, va, e.get("ln"))
        out.append((s, None, ("void",)))
    return out


def do_assign(E, f, e, objx, arrow, args, st):
    out = []
    for s, vs in nargs(E, args, st):
        if s.status != "normal":
            out.append((s, None, NULL))
            continue
        for s2, p, v in obj(E, objx, arrow, s):
            if s2.status == "normal" and p is not None:
                x = vs[0] if vs else ("unk", E.fresh())
                cur_is_vec = is_vec_expr(objx, e) or (p in s2.mem and has_v(s2.mem[p]))
                if cur_is_vec and not has_v(x):
                    x = vwrap(x) if x[0] != "num" else x
                E.write(s2, p, x, e.get("ln"))
            out.append((s2, p, None if p is not None else v))
    return out


def is_vec_expr(objx, e):
    from engine import is_eigen
    return is_eigen(e.get("ot", "")) or is_eigen(objx.get("t", "") if isinstance(objx, dict) else "")


for n in ("std::*::operator=", "Eigen::*::operator="):
    TABLE[n] = do_assign


# repo implicit copy/move assignments are not in the function table: treat X::operator=(X) as assignment
def generic_assign(E, f, e, objx, arrow, args, st):
    return do_assign(E, f, e, objx, arrow, args, st)


_old_find = find


def find(f, e):  # noqa: F811
    h = _old_find(f, e)
    if h:
        return h
    if f.endswith("::operator=") and e.get("mop") and len(e["a"]) == 2:
        return generic_assign
    return None


# ------------------------------------------------------------------ std::vector and friends
SEQC = ("std::vector", "std::array", "std::deque", "std::list", "std::initializer_list", "std::basic_string", "std::set", "std::unordered_set",
        "std::map", "std::unordered_map")


def seqm(*ms):
    names = []
    for c in SEQC:
        for m in ms:
            names.append(c + "::" + m)
    return model(*names)


@seqm("size", "length")
@with_obj
def v_size(E, s, p, v, vs, e):
    return None, size_of(val_of(E, s, p, v))


@seqm("empty")
@with_obj
def v_empty(E, s, p, v, vs, e):
    x = val_of(E, s, p, v)
    if x[0] == "str":
        return None, ("bool", not x[1])
    return None, ceq(size_of(x), NUM0)


@seqm("begin", "cbegin", "data")
@with_obj
def v_begin(E, s, p, v, vs, e):
    if p is None:
        p = ("tmp", E.fresh())
        s.mem[p] = v
    return None, ("beg", p)


@seqm("end", "cend")
@with_obj
def v_end(E, s, p, v, vs, e):
    if p is None:
        p = ("tmp", E.fresh())
        s.mem[p] = v
    return None, add(("beg", p), size_of(E.read(s, p)))


@model("std::begin", "std::cbegin")
def s_begin(E, f, e, objx, arrow, args, st):
    return [(s, None, ("beg", p if p is not None else tmpval(E, s, v))) if s.status == "normal" else (s, None, NULL) for s, p, v in E.lv(args[0], st)]


@model("std::end", "std::cend")
def s_end(E, f, e, objx, arrow, args, st):
    out = []
    for s, p, v in E.lv(args[0], st):
        if s.status == "normal":
            if p is None:
                p = tmpval(E, s, v)
            out.append((s, None, add(("beg", p), size_of(E.read(s, p)))))
        else:
            out.append((s, None, NULL))
    return out


@model("std::size")
def s_size(E, f, e, objx, arrow, args, st):
    return ret1(E, st, args, lambda v: size_of(v))


def tmpval(E, s, v):
    p = ("tmp", E.fresh())
    s.mem[p] = v
    return p


@model("std::_Bit_reference::operator bool")
@with_obj
def v_bit(E, s, p, v, vs, e):
    return None, E.read(s, p) if p is not None else v


@seqm("operator[]", "at")
@with_obj
def v_index(E, s, p, v, vs, e):
    if p is not None:
        c = base_cls(strip_targs(e["f"]))
        if c in ("std::map", "std::unordered_map"):
            return ("elm", p, mapkey(vs[0])), None
        return ("elm", p, vs[0]), None
    return None, elem(v, vs[0])


def mapkey(v):
    return v


@seqm("front")
@with_obj
def v_front(E, s, p, v, vs, e):
    return (("elm", p, NUM0), None) if p is not None else (None, elem(v, NUM0))


@seqm("back")
@with_obj
def v_back(E, s, p, v, vs, e):
    if p is not None:
        x = E.read(s, p)
        return ("elm", p, sub(size_of(x), NUM1)), None
    return None, elem(v, sub(size_of(v), NUM1))


@seqm("push_back", "emplace_back")
def v_push(E, f, e, objx, arrow, args, st):
    out = []
    for s, p, v in obj(E, objx, arrow, st):
        if s.status != "normal":
            out.append((s, None, NULL))
            continue
        for s2, vs in nargs(E, args, s):
            if s2.status == "normal" and p is not None:
                x = vs[0] if len(vs) == 1 else None
                et = elem_type(e.get("ot", ""))
                if x is None or (f.endswith("emplace_back") and et):
                    made = construct(E, s2, et, vs, e, [a.get("t", "") for a in args])
                    for s3, x in made:
                        if s3.status != "normal":
                            out.append((s3, None, NULL))
                            continue
                        E.write(s3, p, seq_append(E.read(s3, p), (("one", x),)), e.get("ln"))
                        out.append((s3, ("elm", p, sub(size_of(E.read(s3, p)), NUM1)), None))
                    continue
                E.write(s2, p, seq_append(E.read(s2, p), (("one", x),)), e.get("ln"))
            rp = ("elm", p, sub(size_of(E.read(s2, p)), NUM1)) if p is not None and s2.status == "normal" else None
            out.append((s2, rp, ("void",) if rp is None else None))
    return out


def elem_type(t):
    m = re.match(r"^(?:const )?std::(?:vector|deque|list)<(.*)>$", t)
    if not m:
        return None
    d = 0
    for i, ch in enumerate(m.group(1)):
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif ch == "," and d == 0:
            return m.group(1)[:i]
    return m.group(1)


def construct(E, s, t, vs, e, types=()):
    """[(state, value)] of an element of type t built in place"""
    if t is None:
        return [(s, ("app", "construct") + tuple(vs))]
    if t.startswith("std::pair"):
        return [(s, ("rec", ("pair",), tuple(zip(("first", "second"), vs))))]
    q = strip_targs(t)
    if q == "Eigen::Triplet" and len(vs) == 3:
        return [(s, ("rec", ("triplet",), tuple(zip(("col", "row", "value"), (vs[1], vs[0], vs[2])))))]
    c = E.P.cls_q.get(q)
    if c is not None:
        name = q.split("::")[-1]
        own = lambda x: strip_targs(re.sub(r"^const |[ &]+$", "", x)) == q
        cands = [fn for fn in E.P.fns(q + "::" + name, lambda x: x.get("ctor")) if len(fn["params"]) == len(vs)]
        if len(vs) == 1 and len(types) == 1:
            if own(types[0]):
                return [(s, vs[0])]
            cands = [fn for fn in cands if not own(fn["params"][0]["t"])]
        if len(cands) == 1 and E.may_inline(cands[0], s):
            tmp = ("tmp", E.fresh())
            res = E.bind_args(cands[0], [], s, tmp, vals=[(None, v) for v in vs])
            outs = []
            for o in [o for _, oo in res for o in oo]:
                if o.status == "return":
                    o.status = "normal"
                v = E.read(o, tmp) if o.status == "normal" else NULL
                if v == tmp:
                    v = ("rec", ("new", q), ())
                elif v[0] == "rec" and v[1] == tmp:
                    v = ("rec", ("new", q), v[2])
                outs.append((o, v))
            return outs
        if len(vs) == 1:
            return [(s, vs[0])]
        return [(s, ("call", "new " + q) + tuple(vs))]
    if len(vs) == 1:
        return [(s, vs[0])]
    if not vs:
        return [(s, E.default_value(t, s))]
    return [(s, ("app", "construct", ("str", q)) + tuple(vs))]


@seqm("pop_back")
@with_obj
def v_pop(E, s, p, v, vs, e):
    x = E.read(s, p)
    if x[0] == "seq" and x[1] and x[1][-1][0] == "one":
        n = ("seq", x[1][:-1])
    else:
        n = ("popped", x)
    E.write(s, p, n, e.get("ln"))
    return None, ("void",)


@seqm("clear")
@with_obj
def v_clear(E, s, p, v, vs, e):
    c = base_cls(strip_targs(e["f"]))
    E.write(s, p, empty_map(e.get("ot", "")) if "map" in c or "set" in c else (("str", "") if "string" in c else seq()), e.get("ln"))
    return None, ("void",)


@seqm("reserve", "shrink_to_fit")
@with_obj
def v_reserve(E, s, p, v, vs, e):
    return None, ("void",)


@seqm("resize", "assign")
@with_obj
def v_resize(E, s, p, v, vs, e):
    f = last(strip_targs(e["f"]))
    if f == "assign":
        if len(vs) == 2:
            r = range_seg(E, s, vs[0], vs[1])
            if r is not None:
                E.write(s, p, ("seq", (r,)) if r[0] != "segs" else ("seq", r[1]), e.get("ln"))
            elif has_beg(vs[0]):
                E.write(s, p, ("unk", E.fresh()), e.get("ln"))
            else:
                E.write(s, p, ("seq", (("rep", vs[0], vs[1]),)), e.get("ln"))
        else:
            E.write(s, p, vs[0] if vs else ("unk", E.fresh()), e.get("ln"))
        return None, ("void",)
    old = E.read(s, p)
    d = vs[1] if len(vs) > 1 else default_elem(e.get("ot", ""))
    if old == ("seq", ()) or size_of(old) == NUM0:
        E.write(s, p, ("seq", (("rep", vs[0], d),)), e.get("ln"))
    elif size_of(old) == vs[0]:
        pass
    else:
        if old[0] == "seq":
            c = const_diff(vs[0], size_of(old))
            if c is not None and c > 0:
                E.write(s, p, ("seq", old[1] + (("rep", num(c), d),)), e.get("ln"))
                return None, ("void",)
        E.write(s, p, ("vresized", old, vs[0], d), e.get("ln"))
    return None, ("void",)


def targs(t):
    t = t.rstrip(" &*")
    i = t.find("<")
    out, d, cur = [], 0, ""
    if i < 0 or not t.endswith(">"):
        return out
    for ch in t[i + 1:-1]:
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
            continue
        d += ch in "<(["
        d -= ch in ">)]"
        cur += ch
    return out + [cur.strip()]


def empty_map(t):
    if t.startswith("const "):
        t = t[6:]
    a = targs(t)
    if "map" in t.split("<")[0] and len(a) > 1:
        return ("emptymap", default_of(a[1]))
    return ("emptymap",)


def default_elem(t):
    return default_of(elem_type(t) or "")


def default_of(et):
    if et.endswith("*") or et.startswith("std::shared_ptr") or et.startswith("std::unique_ptr"):
        return NULL
    if et.startswith("std::vector<"):
        return seq()
    if et.startswith("std::basic_string"):
        return ("str", "")
    if et in ("double", "int", "unsigned long", "unsigned int", "float", "long"):
        return NUM0
    if et == "bool":
        return FALSE
    return ("app", "default", ("str", strip_targs(et)))


def has_beg(v):
    return any(a[0] == "beg" for a in atoms(v))


def range_seg(E, s, a, b):
    """segment for the iterator range [a,b)"""
    ba = [x for x in atoms(a) if x[0] == "beg"]
    bb = [x for x in atoms(b) if x[0] == "beg"]
    if len(ba) != 1 or ba != bb:
        return None
    c = E.read(s, ba[0][1])
    off = sub(a, ba[0])
    n = sub(b, a)
    if off == NUM0 and n == size_of(c):
        if c[0] == "seq":
            return ("segs", c[1])
        return ("all", c)
    return ("rng", c, off, n)


@seqm("insert")
@with_obj
def v_insert(E, s, p, v, vs, e):
    c = base_cls(strip_targs(e["f"]))
    if "map" in c or "set" in c:
        k = vs[0]
        if len(vs) == 1 and k[0] == "rec":
            E.write(s, p, ("minsert", E.read(s, p), project(k, "first"), project(k, "second")), e.get("ln"))
        else:
            E.write(s, p, ("minsert", E.read(s, p)) + tuple(vs), e.get("ln"))
        return None, ("unk", E.fresh())
    old = E.read(s, p)
    at_end = vs[0] == add(("beg", p), size_of(old))
    at_beg = vs[0] == ("beg", p)
    new = None
    segs = None
    if len(vs) == 3:
        r = range_seg(E, s, vs[1], vs[2])
        if r is not None:
            segs = r[1] if r[0] == "segs" else (r,)
        elif not has_beg(vs[1]):
            segs = (("rep", vs[1], vs[2]),)
    elif len(vs) == 2:
        segs = (("one", vs[1]),)
    if segs is not None and at_end:
        new = seq_append(old, segs)
    elif segs is not None and at_beg:
        new = ("seq", tuple(segs) + as_segs(old))
    else:
        pos = sub(vs[0], ("beg", p))
        if segs is not None and not has_beg(pos):
            new = ("insat", old, pos, ("seq", tuple(segs)))
        else:
            new = ("inserted", old) + tuple(vs)
    E.write(s, p, new, e.get("ln"))
    return None, ("unk", E.fresh())


@seqm("erase")
@with_obj
def v_erase(E, s, p, v, vs, e):
    old = E.read(s, p)
    pos = sub(vs[0], ("beg", p))
    n = NUM1 if len(vs) == 1 else sub(vs[1], vs[0])
    if has_beg(pos) or has_beg(n) or len(vs) > 2:
        new = ("erased", old) + tuple(vs)
    else:
        new = ("delat", old, pos, n)
    E.write(s, p, new, e.get("ln"))
    return None, ("unk", E.fresh())


@seqm("find", "count", "contains")
@with_obj
def v_findk(E, s, p, v, vs, e):
    f = last(strip_targs(e["f"]))
    x = val_of(E, s, p, v)
    if f == "find":
        return None, ("mit", p if p is not None else tmpval(E, s, v), x, vs[0])
    r = ("app", "haskey", x, vs[0])
    return None, r


@seqm("emplace", "try_emplace", "insert_or_assign")
@with_obj
def v_emplace(E, s, p, v, vs, e):
    E.write(s, p, ("minsert", E.read(s, p)) + tuple(vs), e.get("ln"))
    return None, ("unk", E.fresh())


@seqm("swap")
def v_swap(E, f, e, objx, arrow, args, st):
    return m_swap(E, f, e, None, False, [objx] + list(args), st)


@seqm("c_str", "str")
@with_obj
def s_cstr(E, s, p, v, vs, e):
    return None, val_of(E, s, p, v)


@seqm("append", "operator+=")
@with_obj
def s_append(E, s, p, v, vs, e):
    if p is not None:
        E.write(s, p, app("concat", E.read(s, p), *vs), e.get("ln"))
    return p, None


# map iterator compare with end: handled by operator==/!= on ('mit', ...)
ITER = ("__gnu_cxx::__normal_iterator", "std::__normal_iterator", "std::move_iterator", "std::_Rb_tree_iterator",
        "std::__detail::_Node_iterator", "std::__detail::_Node_const_iterator", "std::_List_iterator", "std::_Rb_tree_const_iterator", "std::reverse_iterator")
for c in ITER:
    def it_deref(E, f, e, objx, arrow, args, st):
        out = []
        for s, p, v in obj(E, objx, arrow, st):
            if s.status != "normal":
                out.append((s, None, NULL))
                continue
            x = val_of(E, s, p, v)
            if x[0] == "mit":
                pl = tmpval(E, s, ("rec", ("pair",), (("first", x[3]), ("second", E.read(s, ("elm", x[1], x[3]))))))
                if f.endswith("->"):
                    out.append((s, None, addr(pl)))
                else:
                    out.append((s, pl, None))
                continue
            pl = E.deref(x)
            if f.endswith("->"):
                out.append((s, None, addr(pl)))
            else:
                out.append((s, pl, None))
        return out
    TABLE[c + "::operator*"] = it_deref
    TABLE[c + "::operator->"] = it_deref

    def it_inc(E, f, e, objx, arrow, args, st):
        out = []
        for s, p, v in obj(E, objx, arrow, st):
            if s.status != "normal":
                out.append((s, None, NULL))
                continue
            d = num(1) if f.endswith("++") else num(-1)
            old = val_of(E, s, p, v)
            if p is not None:
                E.write(s, p, add(old, d), e.get("ln"))
            out.append((s, None, old if e.get("post") else add(old, d)))
        return out
    TABLE[c + "::operator++"] = it_inc
    TABLE[c + "::operator--"] = it_inc

    @with_obj
    def it_plus(E, s, p, v, vs, e):
        f = last(strip_targs(e["f"]))
        x = val_of(E, s, p, v)
        return None, add(x, vs[0]) if f == "operator+" else sub(x, vs[0])
    TABLE[c + "::operator+"] = it_plus
    TABLE[c + "::operator-"] = it_plus

    @with_obj
    def it_index(E, s, p, v, vs, e):
        x = val_of(E, s, p, v)
        return E.deref(add(x, vs[0])), None
    TABLE[c + "::operator[]"] = it_index

    def it_base(E, f, e, objx, arrow, args, st):
        return E.lv(objx, st)
    TABLE[c + "::base"] = it_base


@model("std::make_move_iterator", "std::make_reverse_iterator")
def m_mmi(E, f, e, objx, arrow, args, st):
    return E.lv(args[0], st)


@model("std::next", "std::prev", "std::advance")
def m_next(E, f, e, objx, arrow, args, st):
    if f == "std::advance":
        out = []
        for s, p, v in E.lv(args[0], st):
            for s2, n in E.rv(args[1], s):
                E.write(s2, p, add(E.read(s2, p), n), e.get("ln"))
                out.append((s2, None, ("void",)))
        return out
    d = 1 if f == "std::next" else -1
    return ret1(E, st, args, lambda it, n=NUM1: add(it, mul(num(d), n)))


@model("std::distance")
def m_dist(E, f, e, objx, arrow, args, st):
    return ret1(E, st, args, lambda a, b: sub(b, a))


def cmpop(op):
    def h(E, f, e, objx, arrow, args, st):
        lst = ([objx] if objx is not None else []) + list(args)
        out = []
        for s, vs in nargs(E, lst, st):
            if s.status != "normal" or len(vs) < 2:
                out.append((s, None, NULL))
                continue
            a, b = vs[0], vs[1]
            isint = has_beg(a) or has_beg(b)
            if op in ("==", "!="):
                if b[0] == "mit":
                    a, b = b, a
                if a[0] == "mit" and has_beg(b):
                    c = cnot(("app", "haskey", a[2], a[3]))
                else:
                    c = ceq(a, b)
                out.append((s, None, c if op == "==" else cnot(c)))
            elif op == "<":
                out.append((s, None, clt(a, b, isint)))
            elif op == ">":
                out.append((s, None, clt(b, a, isint)))
            elif op == "<=":
                out.append((s, None, cle(a, b, isint)))
            else:
                out.append((s, None, cle(b, a, isint)))
        return out
    return h


for op in ("==", "!=", "<", ">", "<=", ">="):
    for pre in ("std::*::operator", "__gnu_cxx::operator", "std::operator", "std::__detail::operator"):
        TABLE[pre + op] = cmpop(op)


@model("std::operator+", "std::*::operator+")
def s_plus(E, f, e, objx, arrow, args, st):
    lst = ([objx] if objx is not None else []) + list(args)

    def fn(a, b):
        if has_beg(a) or has_beg(b):
            return add(a, b)
        return app("concat", a, b)
    return ret1(E, st, lst, fn)


@model("__gnu_cxx::operator-", "std::operator-")
def it_minus(E, f, e, objx, arrow, args, st):
    return ret1(E, st, args, lambda a, b: sub(a, b))


@model("std::to_string")
def s_tostr(E, f, e, objx, arrow, args, st):
    return ret1(E, st, args, lambda a: app("tostr", a))


@model("std::operator<<", "std::basic_ostream::operator<<", "std::basic_ostream::write", "std::basic_ostream::flush", "std::setw", "std::setfill",
       "std::setprecision", "std::ios_base::precision", "std::basic_ostream::put")
def m_stream(E, f, e, objx, arrow, args, st):
    return ignore(E, f, e, objx, arrow, args, st)


@model("std::scoped_lock::scoped_lock")
def m_lockc(E, f, e, objx, arrow, args, st):
    return ignore(E, f, e, objx, arrow, args, st)


# ------------------------------------------------------------------ math
def mathf(*names):
    return model(*(names + tuple("std::" + n for n in names)))


@mathf("fabs", "abs", "fabsf", "labs", "llabs")
def f_abs(E, f, e, objx, arrow, args, st):
    return ret1(E, st, args, lambda a: app("abs", a))


@mathf("sqrt", "floor", "ceil", "sin", "cos", "exp", "log", "log10", "tan", "atan", "asin", "acos", "round")
def f_un(E, f, e, objx, arrow, args, st):
    return ret1(E, st, args, lambda a: app(last(f), a))


@mathf("isfinite", "isnan", "isinf")
def f_cls(E, f, e, objx, arrow, args, st):
    return ret1(E, st, args, lambda a: ("app", last(f), a))


@mathf("fmax", "fmin")
def f_fmax(E, f, e, objx, arrow, args, st):
    n = "max" if "max" in f else "min"
    return ret1(E, st, args, lambda a, b: app(n, a, b))


@model("std::max", "std::min")
def f_max(E, f, e, objx, arrow, args, st):
    n = last(f)

    def fn(*vs):
        if len(vs) == 1 and vs[0][0] == "seq":
            vs = [x[1] for x in vs[0][1]]
        return app(n, *vs)
    return ret1(E, st, args, fn)


@model("std::clamp")
def f_clamp(E, f, e, objx, arrow, args, st):
    return ret1(E, st, args, lambda x, lo, hi: app("min", app("max", x, lo), hi))


@mathf("pow")
def f_pow(E, f, e, objx, arrow, args, st):
    def fn(a, b):
        if b[0] == "num" and b[1].denominator == 1 and 0 <= b[1] <= 4:
            r = NUM1
            for _ in range(int(b[1])):
                r = mul(r, a)
            return r
        return app("pow", a, b)
    return ret1(E, st, args, fn)


@model("__builtin_inff", "__builtin_inf", "__builtin_huge_val", "__builtin_huge_valf")
def f_inf(E, f, e, objx, arrow, args, st):
    return [(st, None, INF)]


@model("__builtin_nanf", "__builtin_nan")
def f_nan(E, f, e, objx, arrow, args, st):
    return [(st, None, ("nan",))]


@model("std::numeric_limits::infinity")
def f_linf(E, f, e, objx, arrow, args, st):
    return [(st, None, INF)]


@model("std::numeric_limits::max", "std::numeric_limits::lowest", "std::numeric_limits::min", "std::numeric_limits::epsilon")
def f_lmax(E, f, e, objx, arrow, args, st):
    if f.endswith("lowest"):
        return [(st, None, neg(("lim", "max", e.get("t"))))]
    return [(st, None, ("lim", last(f), e.get("t")))]


# ------------------------------------------------------------------ algorithms
def callf(E, s, fv, vals):
    """call a callable value on values"""
    if fv[0] == "lambda":
        return E.call_lambda(fv, [], s, vals=vals)
    return [(s, None, ("app", "fp", fv) + tuple(E.read(s, p) if p is not None else v for p, v in vals))]


def algo_loop(E, e, st, beg, end, body):
    """for (it = beg; it != end; ++it) body(state, place)"""
    hid = ("var", "al%d" % E.fresh(), st.frame.id)
    st.mem[hid] = NUM0
    n = sub(end, beg)

    def cnd(x):
        return E.split(x, clt(E.read(x, hid), n, True))

    def bod(x):
        return body(x, E.deref(add(beg, E.read(x, hid))), E.read(x, hid))

    def inc(x):
        x.mem[hid] = add(E.read(x, hid), NUM1)
        return [x]
    return E.loop(st, cnd, bod, inc, e)


@model("std::for_each")
def a_foreach(E, f, e, objx, arrow, args, st):
    out = []
    for s, vs in nargs(E, args, st):
        if s.status != "normal":
            out.append((s, None, NULL))
            continue

        def body(x, p, i, fv=vs[2]):
            return [y for y, _, _ in callf(E, x, fv, [(p, None)])]
        for y in algo_loop(E, e, s, vs[0], vs[1], body):
            out.append((y, None, vs[2]))
    return out


@model("std::transform")
def a_transform(E, f, e, objx, arrow, args, st):
    out = []
    for s, vs in nargs(E, args, st):
        if s.status != "normal":
            out.append((s, None, NULL))
            continue
        two = len(vs) == 5
        dst = vs[3] if two else vs[2]
        fv = vs[-1]

        def body(x, p, i):
            r = []
            a = [(p, None)]
            if two:
                a.append((E.deref(add(vs[2], i)), None))
            for y, rp, v in callf(E, x, fv, a):
                if y.status == "normal":
                    v = E.read(y, rp) if rp is not None else v
                    if dst[0] == "binserter":
                        E.write(y, dst[1], seq_append(E.read(y, dst[1]), (("one", v),)), e.get("ln"))
                    else:
                        E.write(y, E.deref(add(dst, i)), v, e.get("ln"))
                r.append(y)
            return r
        for y in algo_loop(E, e, s, vs[0], vs[1], body):
            out.append((y, None, ("unk", E.fresh())))
    return out


@model("std::back_inserter")
def a_binserter(E, f, e, objx, arrow, args, st):
    return [(s, None, ("binserter", p)) for s, p, v in E.lv(args[0], st)]


@model("std::copy", "std::copy_n", "std::move_range")
def a_copy(E, f, e, objx, arrow, args, st):
    out = []
    for s, vs in nargs(E, args, st):
        if s.status != "normal":
            out.append((s, None, NULL))
            continue
        if f.endswith("copy_n"):
            a, n, dst = vs
            b = add(a, n)
        else:
            a, b, dst = vs
        if dst[0] == "binserter":
            r = range_seg(E, s, a, b)
            if r is not None:
                E.write(s, dst[1], seq_append(E.read(s, dst[1]), r[1] if r[0] == "segs" else (r,)), e.get("ln"))
                out.append((s, None, dst))
                continue

        def body(x, p, i):
            E.write(x, E.deref(add(dst, i)), E.read(x, p), e.get("ln"))
            return [x]
        for y in algo_loop(E, e, s, a, b, body):
            out.append((y, None, ("unk", E.fresh())))
    return out


@model("std::fill", "std::fill_n")
def a_fill(E, f, e, objx, arrow, args, st):
    out = []
    for s, vs in nargs(E, args, st):
        if s.status != "normal":
            out.append((s, None, NULL))
            continue
        a = vs[0]
        b = add(a, vs[1]) if f.endswith("_n") else vs[1]

        def body(x, p, i):
            E.write(x, p, vs[2], e.get("ln"))
            return [x]
        for y in algo_loop(E, e, s, a, b, body):
            out.append((y, None, ("void",)))
    return out


@model("std::accumulate", "std::reduce")
def a_accumulate(E, f, e, objx, arrow, args, st):
    out = []
    for s, vs in nargs(E, args, st):
        if s.status != "normal":
            out.append((s, None, NULL))
            continue
        acc = ("var", "acc%d" % E.fresh(), s.frame.id)
        s.mem[acc] = vs[2] if len(vs) > 2 else NUM0

        def body(x, p, i):
            if len(vs) > 3:
                r = []
                for y, rp, v in callf(E, x, vs[3], [(None, E.read(x, acc)), (p, None)]):
                    if y.status == "normal":
                        y.mem[acc] = E.read(y, rp) if rp is not None else v
                    r.append(y)
                return r
            x.mem[acc] = add(E.read(x, acc), E.read(x, p))
            return [x]
        for y in algo_loop(E, e, s, vs[0], vs[1], body):
            out.append((y, None, E.read(y, acc)))
    return out


@model("std::inner_product")
def a_inner(E, f, e, objx, arrow, args, st):
    out = []
    for s, vs in nargs(E, args, st):
        if s.status != "normal":
            out.append((s, None, NULL))
            continue
        acc = ("var", "acc%d" % E.fresh(), s.frame.id)
        s.mem[acc] = vs[3]

        def body(x, p, i):
            x.mem[acc] = add(E.read(x, acc), mul(E.read(x, p), E.read(x, E.deref(add(vs[2], i)))))
            return [x]
        for y in algo_loop(E, e, s, vs[0], vs[1], body):
            out.append((y, None, E.read(y, acc)))
    return out


@model("std::all_of", "std::any_of", "std::none_of")
def a_allof(E, f, e, objx, arrow, args, st):
    out = []
    n = last(f)
    for s, vs in nargs(E, args, st):
        if s.status != "normal":
            out.append((s, None, NULL))
            continue
        res = ("var", "ao%d" % E.fresh(), s.frame.id)
        s.mem[res] = FALSE if n == "any_of" else TRUE

        def body(x, p, i):
            r = []
            for y, rp, v in callf(E, x, vs[2], [(p, None)]):
                if y.status != "normal":
                    r.append(y)
                    continue
                v = E.read(y, rp) if rp is not None else v
                for z, b in E.truth(y, v):
                    if (n == "all_of" and not b) or (n in ("any_of", "none_of") and b):
                        z.mem[res] = TRUE if n == "any_of" else FALSE
                        z.status = "break"
                    r.append(z)
            return r
        for y in algo_loop(E, e, s, vs[0], vs[1], body):
            out.append((y, None, E.read(y, res)))
    return out


@model("std::find_if", "std::find", "std::find_if_not")
def a_findif(E, f, e, objx, arrow, args, st):
    out = []
    n = last(f)
    for s, vs in nargs(E, args, st):
        if s.status != "normal":
            out.append((s, None, NULL))
            continue
        res = ("var", "fi%d" % E.fresh(), s.frame.id)
        s.mem[res] = vs[1]

        def body(x, p, i):
            r = []
            if n == "find":
                cands = [(x, None, ceq(E.read(x, p), vs[2]))]
            else:
                cands = callf(E, x, vs[2], [(p, None)])
            for y, rp, v in cands:
                if y.status != "normal":
                    r.append(y)
                    continue
                v = E.read(y, rp) if rp is not None else v
                for z, b in E.truth(y, v):
                    if b == (n != "find_if_not"):
                        z.mem[res] = add(vs[0], i)
                        z.status = "break"
                    r.append(z)
            return r
        for y in algo_loop(E, e, s, vs[0], vs[1], body):
            out.append((y, None, E.read(y, res)))
    return out


@model("std::iota")
def a_iota(E, f, e, objx, arrow, args, st):
    out = []
    for s, vs in nargs(E, args, st):
        def body(x, p, i):
            E.write(x, p, add(vs[2], i), e.get("ln"))
            return [x]
        for y in algo_loop(E, e, s, vs[0], vs[1], body):
            out.append((y, None, ("void",)))
    return out


@model("std::max_element", "std::min_element")
def a_maxel(E, f, e, objx, arrow, args, st):
    def fn(a, b, *c):
        return ("app", last(f), a, b) + tuple(c)
    return ret1(E, st, args, fn)


@model("std::sort", "std::stable_sort")
def a_sort(E, f, e, objx, arrow, args, st):
    out = []
    for s, vs in nargs(E, args, st):
        if s.status == "normal":
            for a in atoms(vs[0]):
                if a[0] == "beg":
                    old = E.read(s, a[1])
                    new = ("unk", E.fresh())
                    if vs[0] == a and sub(vs[1], a) == size_of(old):
                        sid = E.fresh()
                        ea, eb = ("phi", sid, "a"), ("phi", sid, "b")
                        if len(vs) == 2:
                            new = ("sorted", old, sid, (((), clt(ea, eb)),))
                        else:
                            s0 = s.fork()
                            n0 = len(s0.trace)
                            base = set(s0.facts)
                            alts = []
                            for y, rp, v in callf(E, s0, vs[2], [(None, ea), (None, eb)]):
                                if y.status != "normal":
                                    alts = None
                                    break
                                v = E.read(y, rp) if rp is not None else v
                                alts.append((tuple((c, b) for c, b in y.facts.items() if c not in base), v))
                            if alts:
                                new = ("sorted", old, sid, tuple(alts))
                    E.write(s, a[1], new, e.get("ln"))
        out.append((s, None, ("void",)))
    return out


# ------------------------------------------------------------------ Eigen
def eig(*names):
    return model(*tuple("Eigen::*::" + n for n in names))


def isarr(e, key_="ot"):
    from engine import is_array_t
    return is_array_t(e.get(key_, ""))


def ty(x):
    return x.get("t", "") if isinstance(x, dict) else ""


@eig("operator const double", "operator double")
@with_obj
def e_scalar(E, s, p, v, vs, e):
    """a 1x1 product used as a number"""
    v = val_of(E, s, p, v)
    if v[0] == "V" and v[1][0] == "const":
        return None, v[1][1]
    return None, ("elm2", v, NUM0, NUM0) if not has_v(v) else elem2(v, NUM0, NUM0)


@eig("size")
@with_obj
def e_size(E, s, p, v, vs, e):
    return None, size_of(vw(val_of(E, s, p, v)))


def vw(v):
    return v if has_v(v) or v[0] == "num" else vwrap(v)


def sp_key(v):
    return v


@eig("rows", "outerSize_", "innerSize_")
@with_obj
def e_rows(E, s, p, v, vs, e):
    if is_vec_t(e.get("ot", "")):
        return None, size_of(vw(val_of(E, s, p, v)))
    return None, rows_of(vw(val_of(E, s, p, v)))


@eig("cols")
@with_obj
def e_cols(E, s, p, v, vs, e):
    if is_vec_t(e.get("ot", "")):
        return None, NUM1
    return None, cols_of(vw(val_of(E, s, p, v)))


@eig("outerSize")
@with_obj
def e_outer(E, s, p, v, vs, e):
    x, t = vw(val_of(E, s, p, v)), e.get("ot", "")
    if "SparseVector" in t:
        return None, NUM1
    if re.search(r"SparseMatrix<double, (1|Eigen::RowMajor|RowMajor)", t):
        return None, rows_of(x)
    if re.search(r"SparseMatrix<double, (0|Eigen::ColMajor|ColMajor)", t):
        return None, cols_of(x)
    return None, ("app", "outer", x)


@eig("operator()", "operator[]", "coeff", "coeffRef", "insert")
@with_obj
def e_index(E, s, p, v, vs, e):
    if p is not None:
        if len(vs) == 1:
            return blk_elm(p, vs[0]), None
        if len(vs) == 2:
            return ("elm2", p, vs[0], vs[1]), None
    v = vw(v)
    if len(vs) == 1:
        return None, elem(v, vs[0])
    return None, elem2(v, vs[0], vs[1])


def blk_elm(p, i):
    if p[0] == "blkp":
        return ("elm", p[1], add(p[2], i))
    return ("elm", p, i)


def block1(E, s, p, v, off, n):
    if p is not None and p[0] == "blkp":
        return ("blkp", p[1], add(p[2], off), n), None
    if p is not None and p[0] not in ("blkp2",):
        return ("blkp", p, off, n), None
    x = vw(val_of(E, s, p, v))
    return None, blkval(x, off, n)


def blkval(x, off, n):
    if off == NUM0 and size_of(x) == n:
        return x
    return ("V", ("blk", x, off, n))


@eig("segment", "middleRows_")
@with_obj
def e_segment(E, s, p, v, vs, e):
    if len(vs) == 1:   # fixed size segment<N>(off)
        n = fixed_n(e)
        return block1(E, s, p, v, vs[0], n)
    return block1(E, s, p, v, vs[0], vs[1])


def fixed_n(e):
    m = re.search(r"<(\d+)>$", e.get("f", ""))
    return num(int(m.group(1))) if m else ("unk", 0)


@eig("head", "topRows_")
@with_obj
def e_head(E, s, p, v, vs, e):
    n = vs[0] if vs else fixed_t(e)
    return block1(E, s, p, v, NUM0, n)


def fixed_t(e):
    m = re.search(r"Eigen::VectorBlock<.*, (\d+)>$", e.get("t", ""))
    return num(int(m.group(1))) if m else ("unk", 0)


@eig("tail")
@with_obj
def e_tail(E, s, p, v, vs, e):
    n = vs[0] if vs else fixed_t(e)
    x = vw(val_of(E, s, p, v))
    return block1(E, s, p, v, sub(size_of(x), n), n)


@eig("block")
@with_obj
def e_block(E, s, p, v, vs, e):
    if len(vs) == 4:
        r0, c0, nr, nc = vs
        if p is not None and p[0] not in ("blkp", "blkp2"):
            if is_vec_t(e.get("ot", "")) and c0 == NUM0:
                return ("blkp", p, r0, nr), None
            return ("blkp2", p, r0, c0, nr, nc), None
        x = vw(val_of(E, s, p, v))
        if is_vec_t(e.get("ot", "")) and c0 == NUM0:
            return None, blkval(x, r0, nr)
        return None, ("V", ("blk2", x, r0, c0, nr, nc))
    return None, ("V", ("app", "block", vw(val_of(E, s, p, v))) + tuple(vs))


def is_vec_t(t):
    return bool(re.match(r"^(const )?(Eigen::(Ref|Map|MapBase|RefBase|EigenBase|DenseBase|MatrixBase|PlainObjectBase|DenseCoeffsBase|ArrayBase|NoAlias|VectorBlock)<(const )?)*"
                         r"Eigen::(Matrix|Array)<\w+, (-1|\d+), 1\b", t))


def rowblk(v, r0, n):
    return ("V", ("rowblk", v, r0, n))


@eig("topRows", "middleRows", "bottomRows", "leftCols", "rightCols", "middleCols", "topLeftCorner")
@with_obj
def e_rowsblk(E, s, p, v, vs, e):
    f = last(strip_targs(e["f"]))
    x = vw(val_of(E, s, p, v))
    if is_vec_t(e.get("ot", "")) and f in ("topRows", "middleRows", "bottomRows"):
        if f == "topRows":
            return block1(E, s, p, v, NUM0, vs[0])
        if f == "middleRows":
            return block1(E, s, p, v, vs[0], vs[1])
        return block1(E, s, p, v, sub(size_of(x), vs[0]), vs[0])
    if p is not None and p[0] not in ("blkp", "blkp2") and f == "topRows":
        return ("blkp2", p, NUM0, NUM0, vs[0], cols_of(x)), None
    return None, ("V", ("app", f, x) + tuple(vs))


@eig("row", "col")
@with_obj
def e_row(E, s, p, v, vs, e):
    f = last(strip_targs(e["f"]))
    if not vs:   # InnerIterator::row()
        return None, it_pos(val_of(E, s, p, v), f)
    if p is not None and p[0] not in ("blkp", "blkp2"):
        x = vw(E.read(s, p))
        # writable row/col of a dense matrix
        if f == "row":
            return ("rowp", p, vs[0]), None
        return ("colp", p, vs[0]), None
    x = vw(val_of(E, s, p, v))
    return None, ("V", (f, x, vs[0]))


@eig("value", "valueRef")
@with_obj
def e_value(E, s, p, v, vs, e):
    x = val_of(E, s, p, v)
    f = last(strip_targs(e["f"]))
    if has_v(x):
        return None, elem2(vw(x), NUM0, NUM0)
    ib = [a for a in atoms(x) if a[0] == "inner"]
    if len(ib) == 1 and len(ib[0]) == 5:
        pl = ib[0][4]
        vec = ib[0][3][1] == "vec"
        ep = ("elm", pl, it_pos(x, "row")) if vec else ("elm2", pl, it_pos(x, "row"), it_pos(x, "col"))
        if f == "valueRef":
            return ep, None
        if vw(E.read(s, pl)) != ib[0][1]:
            return ep, None
    elif f == "valueRef":
        return None, ("unk", E.fresh())
    return None, ("itval", x)


def it_pos(x, f):
    """row or column of the entry an iterator stands at"""
    ib = [a for a in atoms(x) if a[0] == "inner"]
    if len(ib) == 1:
        o = ib[0][3][1]
        if o == f:
            return ib[0][2]
        if o == "vec" and f == "col":
            return NUM0
    return app("it_" + f, x)


@model("Eigen::SparseCompressedBase::InnerIterator::operator bool", "Eigen::*::operator bool")
@with_obj
def e_itbool(E, s, p, v, vs, e):
    x = val_of(E, s, p, v)
    ib = [a for a in atoms(x) if a[0] == "inner"]
    if len(ib) == 1:
        pos = sub(x, ib[0])
        return None, clt(pos, app("nnz", ib[0]), True)
    return None, app("itbool", x)


@eig("operator++")
def e_itinc(E, f, e, objx, arrow, args, st):
    return TABLE["std::move_iterator::operator++"](E, f, e, objx, arrow, args, st)


def binop(op):
    def h(E, f, e, objx, arrow, args, st):
        lst = ([objx] if objx is not None else []) + list(args)
        out = []
        ts = [ty(x) for x in lst]
        arr = any(isarr({"ot": t}) for t in ts) or isarr(e)
        for s, vs in nargs(E, lst, st):
            if s.status != "normal":
                out.append((s, None, NULL))
                continue
            out.append((s, None, ebin(op, vs, lst, arr, e)))
        return out
    return h


def is_eig_e(x):
    from engine import is_eigen
    return is_eigen(ty(x)) or (isinstance(x, dict) and x.get("k") in ("call", "copy", "ctor") and is_eigen(ty(x)))


def ebin(op, vs, lst, arr, e):
    if len(vs) == 1:
        return neg(vw(vs[0])) if op == "-" else vw(vs[0])
    a, b = vs
    from engine import is_eigen
    ea = is_eigen(ty(lst[0])) or has_v(a)
    eb = is_eigen(ty(lst[1])) or has_v(b)
    if ea:
        a = vw(a)
    if eb:
        b = vw(b)
    if op == "+":
        return add(a, b)
    if op == "-":
        return sub(a, b)
    if op == "*":
        if ea and eb:
            if arr:
                return cw("*", a, b)
            ta, tb = ty(lst[0]), ty(lst[1])
            if vecish(tb):
                if rowish(ta):
                    return ("V", ("const", dotp(a, b), NUM1, NUM1))
                return matmul(a, b, "matvec")
            if rowish(ta):
                return matmul(transposed(b), transposed(a), "matvec")
            return matmul(a, b)
        return mul(a, b)
    if op == "/":
        if eb:
            return cw("/", a, b)
        return div(a, b)
    return cw({"<": "lt", "<=": "le", ">": "gt", ">=": "ge", "==": "eq", "!=": "ne"}[op], a, b)


def vecish(t):
    """static type of a column vector (expression)"""
    if t.startswith("const "):
        t = t[6:]
    if is_vec_t(t):
        return True
    m = re.match(r"^Eigen::(\w+)<", t)
    if not m:
        return False
    a = targs(t)
    k = m.group(1)
    if k in ("CwiseBinaryOp",):
        return any(vecish(x) for x in a[1:])
    if k in ("CwiseUnaryOp", "CwiseNullaryOp", "CwiseUnaryView"):
        return vecish(a[1])
    if k == "Product":
        return vecish(a[1])
    if k == "Transpose":
        return rowish(a[0])
    if k == "Block":
        return len(a) > 2 and a[2] == "1"
    if k in ("VectorBlock", "ArrayWrapper", "MatrixWrapper", "Ref", "Map", "MatrixBase", "ArrayBase", "DenseBase", "NoAlias", "SparseVector", "Diagonal"):
        return vecish(a[0]) if k not in ("SparseVector", "Diagonal") else True
    return False


def rowish(t):
    if t.startswith("const "):
        t = t[6:]
    m = re.match(r"^Eigen::(\w+)<", t)
    if not m:
        return False
    a = targs(t)
    k = m.group(1)
    if k in ("Matrix", "Array"):
        return len(a) > 2 and a[1] == "1" and a[2] != "1"
    if k == "Transpose":
        return vecish(a[0])
    if k == "CwiseBinaryOp":
        return any(rowish(x) for x in a[1:])
    if k in ("CwiseUnaryOp", "CwiseNullaryOp"):
        return rowish(a[1])
    if k == "Product":
        return rowish(a[0])
    if k == "Block":
        return len(a) > 1 and a[1] == "1"
    return k in ("Ref", "Map") and rowish(a[0])


def transposed(v):
    if v[0] == "V" and v[1][0] == "T":
        return v[1][1]
    if v[0] == "poly":
        ds = topoly(v)
        acc = NUM0
        for m, c in ds.items():
            vs = [x for x in m if x[0][0] == "V"]
            if len(vs) != 1 or vs[0][1] != 1:
                return ("V", ("T", v))
            acc = add(acc, mul(frompoly({tuple(x for x in m if x[0][0] != "V"): c}), transposed(vs[0][0])))
        return acc
    return ("V", ("T", v))


def matmul(a, b, head="matmul"):
    """matrix product, linear in both: scalars are pulled out"""
    acc = NUM0
    for m1, c1 in topoly(a).items():
        for m2, c2 in topoly(b).items():
            v1 = [x for x in m1 if x[0][0] == "V"]
            v2 = [x for x in m2 if x[0][0] == "V"]
            sc = frompoly({tuple(sorted([x for x in m1 if x[0][0] != "V"], key=key)): c1})
            sc = mul(sc, frompoly({tuple(sorted([x for x in m2 if x[0][0] != "V"], key=key)): c2}))
            if len(v1) == 1 and len(v2) == 1 and v1[0][1] == 1 and v2[0][1] == 1:
                t = ("V", (head, v1[0][0], v2[0][0]))
            else:
                t = ("V", (head, frompoly({m1: 1}), frompoly({m2: 1})))
                sc = ("num", c1 * c2)
            acc = add(acc, mul(sc, t))
    return acc


for op in ("+", "-", "*", "/", "<", ">", "<=", ">=", "==", "!="):
    TABLE["Eigen::*::operator" + op] = binop(op)


def compound(op):
    def h(E, f, e, objx, arrow, args, st):
        out = []
        for s, vs in nargs(E, args, st):
            if s.status != "normal":
                out.append((s, None, NULL))
                continue
            for s2, p, v in obj(E, objx, arrow, s):
                if s2.status == "normal" and p is not None:
                    cur = vw(E.read(s2, p)) if p[0] not in ("blkp", "blkp2", "rowp", "colp") else vw(readblk(E, s2, p))
                    x = ebin(op, [cur, vs[0]], [objx, args[0]], isarr(e), e)
                    E.write(s2, p, x, e.get("ln"))
                out.append((s2, p, None if p is not None else v))
        return out
    return h


for op in ("+", "-", "*", "/"):
    TABLE["Eigen::*::operator%s=" % op] = compound(op)


def readblk(E, s, p):
    return E.read(s, p)


def unary_vec(*names):
    def deco(fn):
        @with_obj
        def h(E, s, p, v, vs, e):
            return None, fn(vw(val_of(E, s, p, v)), *vs)
        for n in names:
            TABLE["Eigen::*::" + n] = h
        return fn
    return deco


@eig("array", "matrix", "noalias", "eval", "derived", "const_cast_derived", "sparseView", "toDense", "selfadjointView", "finished", "asDiagonal_", "lazyProduct", "format", "nestedExpression")
def e_ident(E, f, e, objx, arrow, args, st):
    return E.lv(objx, st) if not arrow else E.objplace(objx, st, arrow)


@unary_vec("cwiseProduct")
def _(a, b):
    return cw("*", a, vw(b))


@unary_vec("cwiseQuotient")
def _(a, b):
    return cw("/", a, vw(b))


@unary_vec("cwiseMax", "max")
def _(a, b=None, *r):
    return cw("max", a, b) if b is not None else ("app", "maxCoeff", a)


@unary_vec("cwiseMin", "min")
def _(a, b=None, *r):
    return cw("min", a, b) if b is not None else ("app", "minCoeff", a)


@unary_vec("cwiseAbs", "abs")
def _(a):
    return cw("abs", a)


@unary_vec("square", "cwiseAbs2", "abs2")
def _(a):
    return cw("sq", a)


@unary_vec("sqrt", "cwiseSqrt")
def _(a):
    return cw("sqrt", a)


@unary_vec("cwiseInverse", "inverse")
def _(a):
    return ("V", ("app", "inverse", a))


@unary_vec("transpose", "adjoint")
def _(a):
    if a[0] == "V" and a[1][0] == "T":
        return a[1][1]
    acc = NUM0
    for m, c in topoly(a).items():
        t = ("num", c)
        for x, pw in m:
            y = ("V", ("T", x)) if x[0] == "V" and not (x[1][0] == "T") else (x[1][1] if x[0] == "V" else x)
            for _i in range(abs(pw)):
                t = mul(t, y) if pw > 0 else div(t, y)
        acc = add(acc, t)
    return acc


@unary_vec("select")
def _(c, a, b):
    return ("V", ("cw", "select", c, a, b))


def linear(name):
    """linear functional of a vector"""
    def fn(a):
        acc = NUM0
        d = topoly(a)
        n = None
        if name == "sum" and any(not any(x[0][0] == "V" for x in m) for m in d):
            n = next((size_of(x[0]) for m in d for x in m if x[0][0] == "V"), None)
        for m, c in d.items():
            vs = [x for x in m if x[0][0] == "V"]
            sc = frompoly({tuple(x for x in m if x[0][0] != "V"): c})
            if len(vs) == 1 and vs[0][1] == 1:
                w = vs[0][0][1]
                if w[0] == "const" and len(w) == 3 and name == "sum":
                    acc = add(acc, mul(sc, mul(w[1], w[2])))
                else:
                    acc = add(acc, mul(sc, ("app", name, vs[0][0])))
            elif not vs and name == "sum" and n is not None:
                acc = add(acc, mul(sc, n))      # a number added to every element
            else:
                acc = add(acc, ("app", name, frompoly({m: c})))
        return acc
    return fn


@unary_vec("sum")
def _(a):
    return vsum(a)


vsum_ = linear("sum")


def vsum(a):
    return vsum_(a)


@unary_vec("dot")
def dotp(a, b):
    return vdot(a, vw(b))


def vdot(a, b):
    # bilinear: sum of element-wise product
    acc = NUM0
    for m1, c1 in topoly(a).items():
        for m2, c2 in topoly(b).items():
            v1 = [x for x in m1 if x[0][0] == "V"]
            v2 = [x for x in m2 if x[0][0] == "V"]
            sc = frompoly({tuple(x for x in m1 if x[0][0] != "V"): c1})
            sc = mul(sc, frompoly({tuple(x for x in m2 if x[0][0] != "V"): c2}))
            t = vsum(cw("*", v1[0][0] if v1 else NUM1, v2[0][0] if v2 else NUM1)) if (v1 and v2) else ("app", "dot", frompoly({m1: 1}), frompoly({m2: 1}))
            acc = add(acc, mul(sc, t))
    return acc


@unary_vec("norm", "squaredNorm", "prod", "mean", "trace", "determinant", "lpNorm", "normalized", "minCoeff", "maxCoeff", "hasNaN", "allFinite", "all", "any", "count", "nonZeros", "isZero", "innerSize")
def _(a, *r):
    return ("app", "redn", a) + tuple(r)


for _n in ("norm", "prod", "mean", "trace", "determinant", "lpNorm", "minCoeff", "maxCoeff", "hasNaN", "allFinite", "all", "any", "count", "nonZeros", "isZero", "innerSize"):
    def _mk(n):
        @with_obj
        def h(E, s, p, v, vs, e):
            return None, ("app", n, vw(val_of(E, s, p, v))) + tuple(vs)
        return h
    TABLE["Eigen::*::" + _n] = _mk(_n)


@unary_vec("squaredNorm")
def _(a):
    return vdot(a, a)


@unary_vec("isApprox")
def _(a, b, *r):
    return ("app", "isApprox", a, vw(b))


@unary_vec("normalized")
def _(a):
    return ("V", ("app", "normalized", a))


@eig("maxCoeff", "minCoeff")
def e_maxc(E, f, e, objx, arrow, args, st):
    out = []
    for s, p, v in obj(E, objx, arrow, st):
        if s.status != "normal":
            out.append((s, None, NULL))
            continue
        x = vw(val_of(E, s, p, v))
        n = last(f)
        for s2, vs in nargs(E, args, s):
            for a in vs:
                if a[0] == "addr":
                    E.write(s2, a[1], ("app", "arg" + n, x), e.get("ln"))
            out.append((s2, None, ("app", n, x)))
    return out


@eig("Constant", "Zero", "Ones", "Identity", "Random")
def e_const(E, f, e, objx, arrow, args, st):
    n = last(f)
    out = []
    for s, vs in nargs(E, args, st):
        if s.status != "normal":
            out.append((s, None, NULL))
            continue
        if n == "Constant":
            val = vs[-1]
            dims = vs[:-1]
        else:
            val = {"Zero": NUM0, "Ones": NUM1}.get(n)
            dims = vs
        if val is None:
            out.append((s, None, ("V", ("app", n) + tuple(dims))))
            continue
        if not dims:
            m = re.search(r"Matrix<double, (\d+), (\d+)", e.get("t", "") + e.get("f", ""))
            dims = [num(int(m.group(1)))] + ([num(int(m.group(2)))] if m.group(2) != "1" else []) if m else []
        out.append((s, None, ("V", ("const", val) + tuple(dims))))
    return out


@eig("setZero", "setConstant", "setOnes", "setIdentity", "setRandom")
@with_obj
def e_setzero(E, s, p, v, vs, e):
    f = last(strip_targs(e["f"]))
    x = vw(val_of(E, s, p, v))
    if f == "setZero":
        val, dims = NUM0, vs
    elif f == "setOnes":
        val, dims = NUM1, vs
    elif f == "setConstant":
        val, dims = vs[-1], vs[:-1]
    else:
        E.write(s, p, ("V", ("app", f, x) + tuple(vs)), e.get("ln"))
        return p, None
    if not dims:
        if p[0] == "blkp":
            dims = [p[3]]
        elif p[0] == "blkp2":
            dims = [p[4], p[5]]
        elif is_vec_t(e.get("ot", "")):
            dims = [size_of(x)]
        else:
            dims = [rows_of(x), cols_of(x)]
    E.write(s, p, ("V", ("const", val) + tuple(dims)), e.get("ln"))
    return p, None


def blank(t, dims):
    """a freshly sized object: sparse ones hold zeros, dense ones indeterminate values"""
    if "Sparse" in strip_targs(t):
        return ("V", ("const", NUM0) + tuple(dims))
    return ("V", ("sized",) + tuple(dims))


@eig("resize", "conservativeResize")
@with_obj
def e_resize(E, s, p, v, vs, e):
    f = last(strip_targs(e["f"]))
    x = vw(E.read(s, p))
    if f == "resize":
        if size_of(x) == (vs[0] if len(vs) == 1 else None):
            return None, ("void",)
        E.write(s, p, blank(e.get("ot", ""), vs), e.get("ln"))
    else:
        E.write(s, p, ("V", ("resized", x) + tuple(vs)), e.get("ln"))
    return None, ("void",)


@eig("data", "valuePtr", "innerIndexPtr", "outerIndexPtr")
@with_obj
def e_data(E, s, p, v, vs, e):
    f = last(strip_targs(e["f"]))
    if p is None:
        p = tmpval(E, s, v)
    if f == "data":
        if p[0] == "blkp":
            return None, add(("beg", p[1]), p[2])
        return None, ("beg", p)
    return None, ("beg", ("fld", p, f))


@eig("begin", "cbegin")
@with_obj
def e_begin(E, s, p, v, vs, e):
    if p is None:
        p = tmpval(E, s, v)
    return None, ("beg", p)


@eig("end", "cend")
@with_obj
def e_end(E, s, p, v, vs, e):
    if p is None:
        p = tmpval(E, s, v)
    return None, add(("beg", p), size_of(vw(E.read(s, p))))


@eig("operator<<")
def e_comma(E, f, e, objx, arrow, args, st):
    if objx is None or "ostream" in ty(objx) or "ostream" in ty(args[0]):
        return ignore(E, f, e, objx, arrow, args, st)
    out = []
    for s, p, v in obj(E, objx, arrow, st):
        for s2, vs in nargs(E, args, s):
            if s2.status == "normal" and p is not None:
                E.write(s2, p, ("V", ("list", (vs[0],))), e.get("ln"))
                q = ("comma", p)
                out.append((s2, q, None))
            else:
                out.append((s2, p, v))
    return out


@eig("operator,")
def e_comma2(E, f, e, objx, arrow, args, st):
    out = []
    for s, p, v in obj(E, objx, arrow, st):
        for s2, vs in nargs(E, args, s):
            if s2.status == "normal" and p is not None and p[0] == "comma":
                cur = E.read(s2, p[1])
                E.write(s2, p[1], ("V", ("list", cur[1][1] + (vs[0],))), e.get("ln"))
            out.append((s2, p, v))
    return out


@eig("swap")
def e_swap(E, f, e, objx, arrow, args, st):
    return m_swap(E, f, e, None, False, [objx] + list(args), st)


# sparse construction
@eig("reserve", "finalize", "makeCompressed", "startVec", "uncompress", "prune_")
@with_obj
def e_noop(E, s, p, v, vs, e):
    return None, ("void",)


@eig("insertBack")
@with_obj
def e_insertback(E, s, p, v, vs, e):
    if len(vs) == 1:
        return ("elm", p, vs[0]), None
    return ("elm2", p, vs[0], vs[1]), None


@eig("setFromTriplets")
def e_triplets(E, f, e, objx, arrow, args, st):
    out = []
    for s, p, v in obj(E, objx, arrow, st):
        if s.status != "normal":
            out.append((s, None, NULL))
            continue
        for s2, vs in nargs(E, args[:2], s):
            if s2.status == "normal":
                r = range_seg(E, s2, vs[0], vs[1])
                x = vw(E.read(s2, p))
                E.write(s2, p, ("V", ("trip", rows_of(x), cols_of(x), r if r is not None else ("unk", E.fresh()))), e.get("ln"))
            out.append((s2, None, ("void",)))
    return out


# ------------------------------------------------------------------ constructors
def ctor(E, f, t, args, e, st):
    from engine import is_eigen, is_seq_t, is_ptr_t
    out = []
    if f == "Eigen::Ref::Ref" and args and all(x["k"] == "defarg" for x in args[1:]):
        return [(s, (vw(val_of(E, s, p, v)) if s.status == "normal" else NULL)) for s, p, v in E.lv(args[0], st)]
    if f.startswith("std::scoped_lock") or f.startswith("std::lock_guard") or f.startswith("std::unique_lock"):
        from engine import Event
        for s, ps in E.lvs(args, st):
            if s.status == "normal":
                s.trace.append(Event("lock", name=f, obj=ps[0][0] if ps else None, line=e.get("ln"), file=s.frame.file, depth=s.frame.id))
            out.append((s, ("lockobj",)))
        return out
    if f.startswith("Eigen::") and f.endswith("InnerIterator") and "Sparse" in ty(args[0]) and "Ref<const" not in ty(args[0]):
        for s, p, v in E.lv(args[0], st):
            for s2, vs in (nargs(E, args[1:], s) if s.status == "normal" else [(s, [])]):
                if s2.status != "normal":
                    out.append((s2, NULL))
                    continue
                pl = p if p is not None and p[0] in ("var", "fld", "elm", "drf", "arg", "this") else None
                out.append((s2, ctor_val(E, s2, f, t, [val_of(E, s2, p, v)] + vs, args, e, pl)))
        return out
    for s, vs in nargs(E, args, st):
        if s.status != "normal":
            out.append((s, NULL))
            continue
        out.append((s, ctor_val(E, s, f, t, vs, args, e)))
    return out


def ctor_val(E, s, f, t, vs, args, e, place=None):
    from engine import is_eigen, is_seq_t, is_ptr_t
    if f == "Eigen::SparseCompressedBase::InnerIterator::InnerIterator":
        t0 = ty(args[0])
        order = "vec" if "SparseVector" in t0 else "row" if re.search(r"SparseMatrix<double, (1|Eigen::RowMajor|RowMajor)", t0) else "col"
        return ("inner", vw(vs[0]), vs[1] if len(vs) > 1 else NUM0, ("str", order)) + (() if place is None else (place,))
    if f == "Eigen::Triplet::Triplet":
        return ("rec", ("triplet",), tuple(zip(("col", "row", "value"), (vs[1], vs[0], vs[2])))) if len(vs) == 3 else ("app", "triplet") + tuple(vs)
    if is_eigen(t):
        if not vs:
            m = re.match(r"^(?:const )?Eigen::Matrix<double, (\d+), (\d+)", t)
            if m:
                r, c = int(m.group(1)), int(m.group(2))
                return ("V", ("sized", num(r))) if c == 1 else ("V", ("sized", num(r), num(c)))
            return ("V", ("sized", NUM0))
        if f == "Eigen::Map::Map":
            ptr = vs[0]
            b = [a for a in atoms(ptr) if a[0] == "beg"]
            if len(b) == 1:
                x = E.read(s, b[0][1])
                return blkval(x if has_v(x) else vwrap(x), sub(ptr, b[0]), vs[1]) if len(vs) > 1 else vwrap(x)
            return ("V", ("app", "Map") + tuple(vs[:2]))
        a0t = ty(args[0])
        if len(vs) == 1:
            if is_eigen(a0t) or has_v(vs[0]):
                return vw(vs[0])
            from engine import is_int_t
            if is_int_t(a0t) or args[0].get("k") in ("int", "cast", "bin", "call", "mem", "ref"):
                if "Eigen::" in a0t:
                    return vw(vs[0])
                return blank(t, vs)
            return vwrap(vs[0])
        if len(vs) == 2:
            m = re.match(r"^(?:const )?Eigen::Matrix<double, 2, 1", t)
            if m:
                return ("V", ("list", tuple(vs)))
            if has_beg(vs[0]):
                b = [a for a in atoms(vs[0]) if a[0] == "beg"]
                x = E.read(s, b[0][1])
                return blkval(x if has_v(x) else vwrap(x), sub(vs[0], b[0]), vs[1])
            return blank(t, vs)
        if len(vs) in (3, 4) and "Matrix<" in t:
            return ("V", ("list", tuple(vs)))
        return ("V", ("app", "ctor:" + f) + tuple(vs))
    if is_seq_t(t):
        if not vs:
            return seq()
        if len(vs) == 1:
            if e.get("il") or vs[0][0] == "seq":
                return vs[0]
            if "std::vector" in ty(args[0]) or "initializer_list" in ty(args[0]):
                return vs[0]
            return ("seq", (("rep", vs[0], default_elem(t)),))
        if len(vs) >= 2:
            if has_beg(vs[0]) and has_beg(vs[1]):
                r = range_seg(E, s, vs[0], vs[1])
                if r is None:
                    return ("unk", E.fresh())
                return ("seq", r[1]) if r[0] == "segs" else ("seq", (r,))
            return ("seq", (("rep", vs[0], vs[1]),))
    if t.startswith("std::basic_string<"):
        if not vs:
            return ("str", "")
        if len(vs) >= 2 and vs[0][0] == "str" and "allocator" in ty(args[-1]):
            vs = vs[:1]
        return vs[0] if len(vs) == 1 else app("string", *vs)
    if t.startswith("std::pair<"):
        if len(vs) == 2:
            return ("rec", ("pair",), tuple(zip(("first", "second"), vs)))
        return vs[0] if vs else ("rec", ("pair",), ())
    if is_ptr_t(t) or "std::shared_ptr" in t[:22] or "std::unique_ptr" in t[:22]:
        if not vs:
            return NULL
        return vs[0]
    if t.startswith("std::function<"):
        return vs[0] if vs else NULL
    if "iterator" in t:
        return vs[0] if vs else ("unk", E.fresh())
    if t.startswith("std::map") or t.startswith("std::unordered_map") or t.startswith("std::set"):
        if not vs:
            return empty_map(t)
    q = strip_targs(t)
    c = E.P.cls_q.get(q)
    if c is not None and not vs:
        # implicit default constructor: default member initialisers
        fl = []
        for fd in E.P.all_fields(q):
            if fd.get("e") is not None:
                r = E.rv(fd["e"], s)
                if len(r) == 1 and r[0][0] is s:
                    v = r[0][1]
                    if is_eigen(fd["t"]) and not has_v(v) and v[0] != "num":
                        v = vwrap(v)
                    fl.append((fd["n"], v))
                    continue
            fl.append((fd["n"], E.default_value(fd["t"], s)))
        return ("rec", ("new", q), tuple(sorted(fl)))
    if len(vs) == 1 and f.split("::")[-1] == f.split("::")[-2:][0] and q.split("::")[-1] == f.split("::")[-1] and False:
        return vs[0]
    return ("call", "new " + q) + tuple(vs)
