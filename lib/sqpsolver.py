"""The trust-region SQP solver explored against the contract of the problem and of the QP solver it drives.

The problem and the QP solver are objects behind an interface; what the interface promises about them is kept in ghost
places: the current point, the trust-region box, the penalty coefficients, the point of the last convexification, the bounds
last computed and what the QP solver has been given."""
from check import *
from explore import Explorer
from engine import Event, Undecided
import models as M

Q = "trajopt_sqp::"
RES = ("fld", ("this",), "results_")
STATUS = ("fld", ("this",), "status_")
PAR = ("fld", ("this",), "params")
G = lambda n: ("fld", ("ghost",), n)
V = lambda t: ("V", t)
NONE = ("str", "none")
PARTS = {"updateHessianMatrix": "hessian", "updateGradient": "gradient", "updateLinearConstraintsMatrix": "matrix", "updateBounds": "bounds"}


def res(n):
    return ("fld", RES, n)


def par(n):
    return ("fld", PAR, n)


class Solver(Explorer):
    def __init__(self, c, nan=()):
        super().__init__(c.prog, noinline=self.quiet_fn)
        self.c = c
        self.nanset = set(nan)
        self.quietfn = {}
        self.unsure = set()
        self.nanname = ""
        self.bad = {}          # (property, rule, line) -> text
        self.done = {}         # (property, rule) -> number of obligations
        self.failing, self.good = [], []
        self.counting = False  # follow what failures count towards
        es = self.P.enums.values() if isinstance(self.P.enums, dict) else self.P.enums
        e = [x for x in es if x["q"] == Q + "SQPStatus"]
        if not e:
            raise AnalysisBroken("SQPStatus not found")
        self.status = {x["n"]: int(x["v"]) for x in e[0]["c"]}
        self.fn = self.c.prog.by_q[Q + "TrustRegionSQPSolver::solve"][0]

    # ------------------------------------------------------------ exploration
    def quiet_fn(self, fn):
        """a const function without result which calls nothing that the model follows: reporting"""
        k = fn["m"]
        if k not in self.quietfn:
            ok = bool(fn.get("cst")) and fn.get("rt") == "void" and fn["q"].startswith(Q)
            if ok:
                def walk(n):
                    if isinstance(n, dict):
                        f = n.get("f") or ""
                        if isinstance(f, str) and f.startswith((Q + "QPProblem::", Q + "QPSolver::", Q + "SQPCallback::")) and not n.get("cst"):
                            return True
                        return any(walk(x) for x in n.values())
                    return isinstance(n, list) and any(walk(x) for x in n)
                ok = not walk(fn.get("body"))
            self.quietfn[k] = ok
        return self.quietfn[k]

    def nan(self, t):
        if not self.nanset:
            return False
        for x in find_all(t, lambda y: y[0] == "call" and y[1] in self.nanset):
            if find_all(x, lambda y: y[0] in ("call", "tag") and y[1] == "sol"):
                return True
        return False

    def constant_field(self, p):
        return p == STATUS or p == res("merit_improve_ratio") or p[0] == "fld" and p[1] == ("ghost",)

    def generalise(self, s):
        return [(G("point"), "point"), (G("box"), "box"), (G("coeff"), "coeff"), (G("conv"), "conv"), (G("sol"), "sol")]

    CAND = ("new_var_vals", "new_costs", "new_constraint_violations", "new_approx_costs", "new_approx_constraint_violations", "new_exact_merit", "new_approx_merit",
            "exact_merit_improve", "approx_merit_improve", "merit_improve_ratio")
    OLD = ("best_approx_costs", "best_approx_constraint_violations", "best_approx_merit", "convexify_iteration", "trust_region_iteration", "penalty_iteration")

    def stale(self, s):
        out = [res(n) for n in self.OLD]
        if self.g(s, "pending") != T.TRUE or self.g(s, "solved") != T.TRUE:
            out += [res(n) for n in self.CAND]      # no candidate is under way
        return out

    def important(self, c):
        return bool(find_all(c, lambda y: y == par("cnt_tolerance"))) and not find_all(c, lambda y: y[0] == "wide") \
            or c[0] in ("le", "eq") and bool(find_all(c, lambda y: y[0] == "size" and find_all(y, lambda z: z[0] == "call" and z[1] == "ev")))

    def shapes(self, s):
        def merit(c, v):
            return lambda rd: add(self.vsum(rd(res(c))), self.vdot(rd(res(v)), rd(res("merit_error_coeffs"))))
        best = merit("best_costs", "best_constraint_violations")
        ex, ap = merit("new_costs", "new_constraint_violations"), merit("new_approx_costs", "new_approx_constraint_violations")
        return {res("best_exact_merit"): best, res("new_exact_merit"): ex, res("new_approx_merit"): ap,
                res("exact_merit_improve"): lambda rd: sub(best(rd), ex(rd)), res("approx_merit_improve"): lambda rd: sub(best(rd), ap(rd)),
                res("merit_improve_ratio"): lambda rd: T.div(sub(best(rd), ex(rd)), sub(best(rd), ap(rd)))}

    def kind(self, v):
        return v[1][1] if v[0] == "V" and v[1][0] in ("call", "tag") else "point"

    def start(self, st, _):
        m = st.mem
        m[G("point")] = V(("call", "start", ("occ", 0)))
        m[G("box")] = V(("call", "box0", ("occ", 0)))
        m[G("coeff")] = V(("call", "coeff0", ("occ", 0)))
        for n in ("conv", "bounds", "hessian", "gradient", "matrix", "loaded", "inloop", "tried"):
            m[G(n)] = NONE
        for n in ("pending", "stopped", "failed", "running", "refused", "solved"):
            m[G(n)] = T.FALSE
        # the results object before the first solve
        for f in self.P.all_fields(Q + "SQPResults"):
            pass

    def obl(self, prop, rule, ok, line, text):
        k = (prop, rule)
        self.done[k] = self.done.get(k, 0) + 1
        if not ok:
            self.bad.setdefault((prop, rule, line), text)

    def eq(self, a, b):
        return a == b or N.nf(a) == N.nf(b)

    def is_true(self, s, c):
        c = T.norm_cond(c) if c[0] in ("le", "fle", "flt", "eq") else c
        d = self.decide(c, s)
        return d is True

    # ------------------------------------------------------------ the interface
    def opaque_call(self, e, f, p, v, args, st):
        n = f.split("::")[-1]
        cls = f[:-len(n) - 2]
        if cls not in (Q + "QPProblem", Q + "QPSolver", Q + "SQPCallback"):
            return super().opaque_call(e, f, p, v, args, st)
        st.trace = []
        out = []
        self.quiet = True       # what the call changes is said by the model below
        try:
            rs = super().opaque_call(e, f, p, v, args, st)
        finally:
            self.quiet = False
        for s, rp, r in rs:
            if s.status != "normal":
                out.append((s, rp, r))
                continue
            ev = [x for x in s.trace if x.kind == "call"][-1]
            s.trace = []
            h = getattr(self, "m_" + n, None)
            if h is None:
                out.append((s, rp, r))
                continue
            for s2, r2 in h(s, ev, r):
                out.append((s2, rp, r2))
        return out

    quiet = False

    def havoc(self, st, place, why=""):
        if not self.quiet:
            super().havoc(st, place, why)

    def g(self, s, n):
        return self.read(s, G(n))

    def set(self, s, n, v):
        s.mem[G(n)] = v

    def ask(self, s, ev, r):
        """a boolean answer of the other side: both"""
        return [(s.fork(), T.TRUE), (s, T.FALSE)]

    # problem
    def m_getVariableValues(self, s, ev, r):
        return [(s, self.g(s, "point"))]

    def m_setVariables(self, s, ev, r):
        a = ev.args[0]
        v = None
        if a[0] == "beg":
            v = self.read(s, a[1]) if a[1][0] in ("fld", "var", "tmp", "arg") else a[1]
        elif a[0] == "addr" and a[1][0] == "elm" and a[1][2] == NUM0:
            v = self.read(s, a[1][1])
        if v is None:
            raise Undecided("the point handed to setVariables is not followed: %s" % show(a)[:80])
        self.set(s, "point", v)
        return [(s, r)]

    def m_convexify(self, s, ev, r):
        self.set(s, "conv", V(("call", "conv", ("occ", self.fresh()))))
        self.set(s, "lin", self.g(s, "point"))
        self.set(s, "lincoeff", self.g(s, "coeff"))
        self.set(s, "pending", T.FALSE)
        if self.g(s, "running") != T.TRUE:
            old = [n for n in ("overall_iteration", "best_var_vals", "merit_error_coeffs") if find_all(self.read(s, res(n)), lambda y: y == RES or y == res(n))]
            self.obl("Q05", "fresh results", not old, ev.line, "the first iteration starts with %s of an earlier solve" % ", ".join(old))
        self.set(s, "running", T.TRUE)
        self.rebound(s)
        if self.g(s, "stopped") == T.TRUE:
            self.obl("Q06", "stop", False, ev.line, "the problem is convexified again after a callback asked to stop")
        return [(s, r)]

    def rebound(self, s):
        self.set(s, "bounds", ("bounds", self.g(s, "point"), self.g(s, "box"), self.g(s, "conv")))

    def m_setBoxSize(self, s, ev, r):
        v = ev.args[0]
        self.set(s, "box", v)
        self.rebound(s)
        if find_all(v, lambda y: y == par("min_trust_box_size")) or find_all(v, lambda y: y == par("initial_trust_box_size")):
            self.set(s, "pending", T.FALSE)
        return [(s, r)]

    def m_scaleBoxSize(self, s, ev, r):
        x = ev.args[0]
        self.set(s, "box", V(("call", "scaled", self.g(s, "box"), x)))
        self.rebound(s)
        if x == par("trust_shrink_ratio"):
            self.set(s, "pending", T.FALSE)
        return [(s, r)]

    def m_getBoxSize(self, s, ev, r):
        return [(s, self.g(s, "box"))]

    def m_setConstraintMeritCoeff(self, s, ev, r):
        self.set(s, "coeff", ev.args[0])
        return [(s, r)]

    def m_getConstraintMeritCoeff(self, s, ev, r):
        return [(s, self.g(s, "coeff"))]

    def m_getExactCosts(self, s, ev, r):
        return [(s, V(("call", "ec", self.g(s, "point"))))]

    def m_getExactConstraintViolations(self, s, ev, r):
        return [(s, V(("call", "ev", self.g(s, "point"))))]

    def m_evaluateConvexCosts(self, s, ev, r):
        return [(s, V(("call", "cc", self.g(s, "conv"), ev.args[0])))]

    def m_evaluateConvexConstraintViolations(self, s, ev, r):
        return [(s, V(("call", "cv", self.g(s, "conv"), ev.args[0])))]

    def m_getTotalExactCost(self, s, ev, r):
        return [(s, M.vsum_(V(("call", "ec", self.g(s, "point")))))] if hasattr(M, "vsum_") else [(s, r)]

    def of_conv(n):
        def h(self, s, ev, r):
            t = ("call", n, self.g(s, "conv"))
            return [(s, V(t) if r[0] == "V" else t)]
        return h
    m_getHessian, m_getConstraintMatrix = of_conv("hessian"), of_conv("matrix")
    m_getNumQPVars, m_getNumQPConstraints = of_conv("nv"), of_conv("nc")

    def m_getGradient(self, s, ev, r):
        return [(s, V(("call", "gradient", self.g(s, "conv"))))]

    def m_getBoundsLower(self, s, ev, r):
        return [(s, V(("call", "lower", self.g(s, "bounds"))))]

    def m_getBoundsUpper(self, s, ev, r):
        return [(s, V(("call", "upper", self.g(s, "bounds"))))]

    # solver
    def m_clear(self, s, ev, r):
        self.emptied(s)
        return [(s, T.TRUE)]

    def emptied(self, s):
        for n in PARTS.values():
            self.set(s, "q_" + n, NONE)
        self.set(s, "refused", T.FALSE)

    def m_init(self, s, ev, r):
        nv, nc = ("call", "nv", self.g(s, "conv")), ("call", "nc", self.g(s, "conv"))
        self.obl("Q07", "dimensions", self.eq(ev.args[0], nv) and self.eq(ev.args[1], nc), ev.line, "the QP solver is set up with other dimensions than the present problem has")
        self.emptied(s)
        return [(s, T.TRUE)]

    def part(n):
        def h(self, s, ev, r):
            t, f = s.fork(), s
            if self.g(t, "refused") != T.TRUE:
                self.set(t, "q_" + n, ("parts",) + tuple(ev.args))
            self.set(f, "refused", T.TRUE)      # nothing is known of what it holds now
            for x in PARTS.values():
                self.set(f, "q_" + x, NONE)
            return [(t, T.TRUE), (f, T.FALSE)]
        return h
    for _m, _n in PARTS.items():
        locals()["m_" + _m] = part(_n)

    def m_solve(self, s, ev, r):
        ln = ev.line
        point, box, conv, best = self.g(s, "point"), self.g(s, "box"), self.g(s, "conv"), self.read(s, res("best_var_vals"))
        o = self.obl
        if self.g(s, "stopped") == T.TRUE:
            o("Q06", "stop", False, ln, "another QP is solved after a callback asked to stop")
        if self.nanset:
            o("Q04", "not-a-number", True, ln, "")
        o("Q07", "at the best point", self.eq(point, best), ln, "the QP is solved around a point that is not the best one")
        o("Q07", "model of the present point", self.eq(self.g(s, "lin"), point), ln, "the QP solved is the model of another point")
        o("Q07", "present coefficients", self.eq(self.g(s, "lincoeff"), self.g(s, "coeff")) and self.eq(self.g(s, "coeff"), self.read(s, res("merit_error_coeffs"))), ln, "the QP solved weighs the violations with other coefficients than the merit does")
        b = self.g(s, "bounds")
        o("Q07", "bounds of the present box", b[0] == "bounds" and self.eq(b[1], point) and self.eq(b[2], box), ln, "the bounds were computed for another point or box")
        o("Q07", "reported box", self.eq(self.read(s, res("box_size")), box), ln, "the box reported in the results is not the one the QP is solved in")
        given = {"hessian": (V(("call", "hessian", conv)),), "gradient": (V(("call", "gradient", conv)),), "matrix": (V(("call", "matrix", conv)),),
                 "bounds": (V(("call", "lower", b)), V(("call", "upper", b)))}
        for n, want in given.items():
            got = self.g(s, "q_" + n)
            if self.g(s, "refused") == T.TRUE:
                continue
            ok = got[0] == "parts" and len(got) - 1 == len(want) and all(self.eq(x, y) for x, y in zip(got[1:], want))
            o("Q07", n + " handed over", ok, ln, "the QP solver has not been given the present %s before it solves" % n)
        o("Q04", "retry in a smaller region", self.g(s, "pending") != T.TRUE, ln, "after a step that was not accepted the QP is solved again in a region that was not shrunk")
        good, fail = s.fork(), s
        for x, ok in ((good, T.TRUE), (fail, T.FALSE)):
            self.set(x, "tried", self.g(s, "inloop"))
            self.set(x, "pending", T.TRUE)
            self.set(x, "failed", T.FALSE if ok == T.TRUE else T.TRUE)
            self.set(x, "sol", V(("call", "sol", ("occ", self.fresh()))))
            self.set(x, "solved", ok)
        return [(good, T.TRUE), (fail, T.FALSE)]

    def m_getSolution(self, s, ev, r):
        return [(s, self.g(s, "sol"))]

    # callbacks
    def m_execute(self, s, ev, r):
        self.consistent(s, ev.line, "a callback runs")
        self.candidate(s, ev.line)
        go, stop = s.fork(), s
        self.set(stop, "stopped", T.TRUE)
        return [(go, T.TRUE), (stop, T.FALSE)]

    # ------------------------------------------------------------ obligations
    def merit(self, s, costs, viol):
        a = self.vsum(costs)
        return add(a, self.vdot(viol, self.read(s, res("merit_error_coeffs"))))

    def vsum(self, v):
        return M.vsum(v)

    def vdot(self, a, b):
        return M.vdot(a, b)

    def consistent(self, s, ln, when):
        o = self.obl
        best = self.read(s, res("best_var_vals"))
        o("Q05", "problem at the best point", self.eq(self.g(s, "point"), best), ln, "%s while the problem's variables are not the best point" % when)
        ec, ev_ = V(("call", "ec", best)), V(("call", "ev", best))
        o("Q05", "best costs", self.eq(self.read(s, res("best_costs")), ec), ln, "%s while best_costs are not those of best_var_vals" % when)
        o("Q05", "best violations", self.eq(self.read(s, res("best_constraint_violations")), ev_), ln, "%s while best_constraint_violations are not those of best_var_vals" % when)
        o("Q05", "best merit", self.eq(self.read(s, res("best_exact_merit")), self.merit(s, ec, ev_)), ln, "%s while best_exact_merit is not the merit of best_var_vals with the present coefficients" % when)

    def candidate(self, s, ln):
        o = self.obl
        x = self.read(s, res("new_var_vals"))
        o("Q05", "candidate", self.eq(x, self.g(s, "sol")), ln, "new_var_vals are not the solution of the QP")
        conv = self.g(s, "conv")
        w = {"new_costs": V(("call", "ec", x)), "new_constraint_violations": V(("call", "ev", x)),
             "new_approx_costs": V(("call", "cc", conv, x)), "new_approx_constraint_violations": V(("call", "cv", conv, x))}
        for n, t in w.items():
            o("Q05", n, self.eq(self.read(s, res(n)), t), ln, "%s are not those of new_var_vals" % n)
        best = self.read(s, res("best_exact_merit"))
        ex, ap = self.merit(s, w["new_costs"], w["new_constraint_violations"]), self.merit(s, w["new_approx_costs"], w["new_approx_constraint_violations"])
        o("Q05", "new_exact_merit", self.eq(self.read(s, res("new_exact_merit")), ex), ln, "new_exact_merit is not costs plus weighted violations of the candidate")
        o("Q05", "new_approx_merit", self.eq(self.read(s, res("new_approx_merit")), ap), ln, "new_approx_merit is not the model's costs plus weighted violations of the candidate")
        o("Q04", "exact improvement", self.eq(self.read(s, res("exact_merit_improve")), sub(best, ex)), ln, "exact_merit_improve is not the decrease of the exact merit")
        o("Q04", "predicted improvement", self.eq(self.read(s, res("approx_merit_improve")), sub(best, ap)), ln, "approx_merit_improve is not the decrease the model predicts")
        r = self.read(s, res("merit_improve_ratio"))
        o("Q04", "ratio", r[0] == "num" or self.eq(r, T.div(sub(best, ex), sub(best, ap))), ln, "merit_improve_ratio is not the exact improvement over the predicted one")

    def write(self, st, place, v, line=None, ev=True):
        if ev and place == res("best_var_vals") and self.g(st, "running") == T.TRUE and not self.eq(v, self.read(st, place)):
            self.accept(st, v, line)
        if ev and place == STATUS and v[0] == "num":
            self.report(st, int(v[1]), line)
        super().write(st, place, v, line, ev)

    def accept(self, s, v, ln):
        o = self.obl
        best = self.read(s, res("best_exact_merit"))
        improve, ratio = self.read(s, res("exact_merit_improve")), self.read(s, res("merit_improve_ratio"))
        o("Q04", "accepted point", self.eq(v, self.g(s, "sol")), ln, "the point taken as best is not the solution of the last QP")
        if self.nanset:
            o("Q04", "not-a-number", False, ln, "a step whose %s not a number is accepted" % self.nanname)
            return
        ex = self.merit(s, V(("call", "ec", v)), V(("call", "ev", v)))
        ob = self.merit(s, V(("call", "ec", self.read(s, res("best_var_vals")))), V(("call", "ev", self.read(s, res("best_var_vals")))))
        ok = any(self.is_true(s, T.cle(NUM0, x, False)) for x in (improve, sub(ob, ex), N.nf(sub(ob, ex))))
        o("Q04", "merit improves", ok, ln, "a step is accepted on a path on which its exact merit may be worse than the best one")
        ok = self.is_true(s, T.cle(par("improve_ratio_threshold"), ratio, False))
        o("Q04", "model agrees", ok, ln, "a step is accepted on a path on which the improvement may be less than the required fraction of the predicted one")
        self.set(s, "pending", T.FALSE)

    def report(self, s, v, ln):
        nm = {x: n for n, x in self.status.items()}.get(v)
        if nm == "kIterationLimit":
            self.obl("Q06", "limit named", self.is_true(s, T.cle(par("max_iterations"), self.read(s, res("overall_iteration")), True)), ln, "the iteration limit is reported although it was not reached")
        elif nm == "kTimeLimit":
            ok = any(find_all(c, lambda y: y == par("max_time")) for c in s.facts)
            self.obl("Q06", "limit named", ok, ln, "the time limit is reported without comparing the time with it")

    def exit(self, s):
        o, ln = self.obl, self.fn["ln"]
        self.consistent(s, ln, "solving ends")
        st = self.read(s, STATUS)
        if st[0] != "num":
            raise Undecided("the final status is not followed: %s" % show(st)[:80])
        nm = {x: n for n, x in self.status.items()}.get(int(st[1]))
        viol = self.read(s, res("best_constraint_violations"))
        o("Q06", "a final status", nm is not None and nm != "kRunning", ln, "solving ends with status %s" % nm)
        met = self.is_true(s, ceq(size_of(viol), NUM0)) or any(b and self.tol(c, viol) for c, b in s.facts.items())
        if nm == "kConverged":
            o("Q06", "converged means tolerance met", met, ln, "solving ends as converged on a path on which the violations of the best point were not found below the tolerance")
        if self.g(s, "stopped") == T.TRUE:
            o("Q06", "stop reported", nm == "kStoppedByCallback" or nm == "kConverged", ln, "a callback asked to stop and the status is %s" % nm)
        else:
            o("Q06", "stop reported", nm != "kStoppedByCallback", ln, "no callback asked to stop and the status says so")
        if nm == "kQPSolveFailed":
            o("Q06", "failure reported", self.g(s, "failed") == T.TRUE, ln, "a failure of the QP solver is reported although the last QP was solved")

    def tol(self, c, viol):
        """max of the violations < tolerance"""
        mx = ("app", "maxCoeff", viol)
        return c in (T.clt(mx, par("cnt_tolerance"), False), T.cle(mx, par("cnt_tolerance"), False))

    # ------------------------------------------------------------ loops end
    def enter(self, s, node):
        out = {}
        for p in list(s.mem):
            v = s.mem[p]
            if p == G("box") or (self.root(p)[0] == "var" or self.counter(p)) and v[0] in ("wide", "tag", "num") and not self.constant_field(p):
                out[("fld", ("ghost", "head"), (id(node), p))] = v
        if not self.counting:
            return out
        out[G("inloop")] = ("str", "loop%d" % id(node))
        if self.g(s, "tried") == out[G("inloop")]:
            s.mem[G("tried")] = NONE
        return out

    def counter(self, p):
        return self.counting and p[0] == "fld" and (p[1] == RES or p[1] == ("this",)) and p[2] not in self.OLD

    def failures(self, s, node, bound):
        """at the end of an iteration in which a QP was solved or failed: what was counted"""
        if self.g(s, "tried") != ("str", "loop%d" % id(node)):
            return
        moved = {}
        for g, h in s.mem.items():
            if g[0] == "fld" and g[1] == ("ghost", "head") and g[2][0] == id(node) and g[2][1] != G("box"):
                v = self.read(s, g[2][1])
                if v != h and not self.eq(v, h):
                    moved[g[2][1]] = v
        if self.g(s, "failed") == T.TRUE:
            lim = par("max_qp_solver_failures")
            facts = list(s.facts) + list(bound)
            compared = {p for p, v in moved.items() if any(find_all(c, lambda y: y == v or y in self.opaque_parts(v)) for c in facts)}
            held = {p for p, v in moved.items() if not has_v(v) and self.is_true(s, T.cle(v, lim, True))}
            self.failing.append((node.get("ln"), frozenset(moved), frozenset(compared), frozenset(held)))
        else:
            self.good.append(frozenset(moved))

    def back_edge(self, head, s, node, bound):
        ln = node.get("ln")
        self.failures(s, node, bound)
        unknown = lambda c: find_all(c, lambda y: y[0] in ("wide", "tag"))
        live = None
        moved = False
        for g, h in [(g, h) for g, h in s.mem.items() if g[0] == "fld" and g[1] == ("ghost", "head") and g[2][0] == id(node)]:
            p = g[2][1]
            v = self.read(s, p)
            if p == G("box"):
                if v == V(("call", "scaled", h, par("trust_shrink_ratio"))):
                    return self.obl("Q06", "loops end", True, ln, "")
                moved = moved or not self.eq(v, h)
                continue
            if v == h:
                continue
            moved = True
            d = T.const_diff(v, h) if not has_v(v) and not has_v(h) else None
            if d is None or d <= 0:
                continue
            h0 = head.mem.get(p)
            if live is None:
                live = {x for q, w in s.mem.items() if q[0] != "fld" or q[1] != ("ghost", "head") for x in unknown(w)}
            for facts, x in ((bound, h0), (s.facts, h)):
                for c, b in facts.items():
                    if (c[0] in ("le", "fle", "flt", "lt") or c[0] == "eq" and b) and find_all(c, lambda y: y == x) and all(y == x or y in live for y in unknown(c)):
                        return self.obl("Q06", "loops end", True, ln, "")
        if not moved:
            self.obl("Q06", "loops end", False, ln, "an iteration of the loop neither counts towards a limit nor shrinks the trust region")
        else:
            self.unsure.add(("Q06", "loops end", ln))

    def run_all(self):
        ps = self.summarize(self.fn, pre=self.start)
        for p in ps:
            if p.status == "return":
                self.exit(p.st)
        always = frozenset.intersection(*self.good) if self.good else frozenset()
        for ln, moved, compared, held in self.failing:
            if held:
                self.obl("Q06", "failures counted", True, ln, "")
            elif not (compared - always):
                self.obl("Q06", "failures counted", False, ln, "the QP is tried again after a failure which counts towards no limit")
            else:
                self.unsure.add(("Q06", "failures counted", ln))
        return ps


RULES = {
    "accepted point": "the point taken as best is the solution of the last QP",
    "merit improves": "on every path that takes a point as best its exact merit has been found not to exceed the best one",
    "model agrees": "on every path that takes a point as best the improvement has been found to reach the required fraction of the predicted one",
    "not-a-number": "with costs, violations or model values that are not a number no path takes the point as best",
    "retry in a smaller region": "after a QP whose step was not taken the next one is solved in a region shrunk by the shrink ratio or set to the minimum, or for a new model",
    "exact improvement": "exact_merit_improve is the best exact merit minus that of the candidate",
    "predicted improvement": "approx_merit_improve is the best exact merit minus the model's merit of the candidate",
    "ratio": "merit_improve_ratio is the exact over the predicted improvement",
    "problem at the best point": "the problem's variables are the best point whenever a callback runs and when solving ends",
    "best costs": "best_costs are the exact costs of best_var_vals",
    "best violations": "best_constraint_violations are the exact violations of best_var_vals",
    "best merit": "best_exact_merit is the sum of those costs plus the violations weighted with the present coefficients",
    "candidate": "new_var_vals are the solution of the last QP",
    "fresh results": "a solve starts from results that do not depend on an earlier one",
    "a final status": "solving never ends with the status running",
    "converged means tolerance met": "solving ends as converged only where the violations of the best point were found below the tolerance or there are none",
    "failure reported": "a failure of the QP solver is reported only if the last QP was not solved",
    "limit named": "a limit is reported only where it was found to be reached",
    "stop": "no QP is solved and no model built after a callback asked to stop",
    "stop reported": "stopped by a callback is the status exactly if a callback asked to stop",
    "failures counted": "where a QP is tried again after a failure, the failure was counted and the count compared with the limit",
    "loops end": "every iteration of every loop of the solver counts towards a configured limit or shrinks the trust region",
    "at the best point": "a QP is solved while the problem's variables are the best point",
    "model of the present point": "the QP solved was convexified at that point",
    "present coefficients": "and with the coefficients the merit uses",
    "bounds of the present box": "its bounds were computed for the present point and box",
    "reported box": "the box in the results is the one the QP is solved in",
    "dimensions": "the QP solver is set up with the dimensions of the present problem",
    "hessian handed over": "the QP solver holds the present Hessian when it solves",
    "gradient handed over": "the QP solver holds the present gradient when it solves",
    "matrix handed over": "the QP solver holds the present constraint matrix when it solves",
    "bounds handed over": "the QP solver holds the present bounds when it solves",
}
for _n in ("new_costs", "new_constraint_violations", "new_approx_costs", "new_approx_constraint_violations", "new_exact_merit", "new_approx_merit"):
    RULES[_n] = "%s are those of new_var_vals whenever a callback runs" % _n
EXPECT = {"Q04": ("accepted point", "merit improves", "model agrees", "retry in a smaller region", "exact improvement", "predicted improvement", "ratio"),
          "Q05": ("problem at the best point", "best costs", "best violations", "best merit", "candidate", "new_costs", "new_constraint_violations", "new_approx_costs",
                  "new_approx_constraint_violations", "new_exact_merit", "new_approx_merit", "fresh results"),
          "Q06": ("a final status", "converged means tolerance met", "failure reported", "limit named", "stop reported", "loops end", "failures counted"),
          "Q07": ("at the best point", "model of the present point", "present coefficients", "bounds of the present box", "reported box", "dimensions", "hessian handed over",
                  "gradient handed over", "matrix handed over", "bounds handed over")}
NANS = ((("ec",), "exact costs are"), (("ev",), "exact violations are"), (("cc", "cv"), "model values are"))


def one_run(c, nan, pid):
    S = Solver(c, nan[0] if nan else ())
    S.nanname = nan[1] if nan else ""
    S.counting = pid == "Q06"
    err = None
    try:
        S.run_all()
    except Undecided as e:
        err = str(e)
    return S.done, S.bad, S.unsure, err, S.visited, S.heads, S.edges


def check(pid, units=(), spec=None):
    """explore the solver and report the obligations of property pid"""
    c = Check(pid, [P.SQP + "trust_region_sqp_solver.cpp"] + list(units), spec=spec)
    c.load()
    fn = c.prog.by_q[Q + "TrustRegionSQPSolver::solve"][0]
    f = P.rel(fn["file"])
    runs = [None] + (list(NANS) if pid == "Q04" else [])
    for r in EXPECT[pid] + ("not-a-number", "stop"):
        c.rule(r, RULES[r])

    def one(nan):
        done, bad, unsure, err, visited, heads, edges = one_run(c, nan, pid)
        c.analysed |= visited
        c.paths += edges
        c.loops += heads
        what = "" if nan is None else " while %s not a number" % nan[1]
        names = EXPECT[pid] if nan is None else ("not-a-number",)
        names += tuple(r for p_, r in done if p_ == pid and r not in names and nan is None)
        failed = set()
        for (p_, r, ln), text in bad.items():
            if p_ == pid and r in names:
                failed.add(r)
                c.viol(r, "%s:%s" % (r, ln), "%s:%s" % (f, ln), text, key="%s/%s%s" % (r, ln, what))
        for r in names:
            n = done.get((pid, r), 0)
            if r in failed:
                continue
            lines = sorted(u[2] for u in unsure if u[1] == r)
            if err:
                if n:
                    c.ok(r, "%s%s: %d abstract states, before the exploration was given up" % (r, what, n), f)
                c.undecided(r, r + what, f, "not explored to the end: " + err)
            elif lines:
                c.undecided(r, r + what, "%s:%s" % (f, lines), "not followed")
            elif n:
                c.ok(r, "%s%s: %d abstract states" % (r, what, n), f)
            else:
                c.undecided(r, r + what, f, "no state to which the rule applies")
    c.fan_out(one, runs)
    return c
