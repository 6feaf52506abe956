// Reference meaning of trajopt_sco/modeling: lhs_* goes through the analysed code, rhs_* is what is required.
#include <bits/stdc++.h>
#define private public
#define protected public
#include <trajopt_sco/modeling.hpp>
#include <trajopt_sco/expr_ops.hpp>
#include <trajopt_sco/sco_common.hpp>
namespace spec
{
using namespace sco;
using X = DblVec;
static const double INF = static_cast<double>(INFINITY);

// ---------------------------------------------------------------------------------------------- S02: penalty terms
#define LAW(ret, name, params, lhs, rhs)                                                                                \
  ret lhs_##name params { lhs; }                                                                                        \
  ret rhs_##name params { rhs; }
inline Var slack(ConvexObjective& o) { return o.model_->addVar("hinge", 0, INF); }
inline Var slackn(ConvexObjective& o) { return o.model_->addVar("neg", 0, INF); }
inline Var slackp(ConvexObjective& o) { return o.model_->addVar("pos", 0, INF); }
inline Var freev(ConvexObjective& o) { return o.model_->addVar("max", -INF, INF); }

LAW(double, S02_aff_obj, (ConvexObjective & o, const AffExpr& a, const X& x), o.addAffExpr(a); return o.quad_.value(x),
    return o.quad_.value(x) + a.value(x))
LAW(double, S02_quad_obj, (ConvexObjective & o, const QuadExpr& a, const X& x), o.addQuadExpr(a); return o.quad_.value(x),
    return o.quad_.value(x) + a.value(x))
LAW(double, S02_value, (ConvexObjective & o, const X& x), return o.value(x), return o.quad_.value(x))

// every row, weighted arbitrarily: equal for all weights means equal row by row
inline double eqs(const ConvexObjective& o, const X& w, const X& x)
{
  double s = 0;
  for (std::size_t k = 0; k < o.eqs_.size(); ++k) s += w[k] * o.eqs_[k].value(x);
  return s;
}
inline double ineqs(const ConvexObjective& o, const X& w, const X& x)
{
  double s = 0;
  for (std::size_t k = 0; k < o.ineqs_.size(); ++k) s += w[k] * o.ineqs_[k].value(x);
  return s;
}
#define TERM(name, params, call, slacks, obj, neweq, newineq)                                                           \
  LAW(double, S02_##name##_objective, params, call; return o.quad_.value(x), double s = o.quad_.value(x); slacks; obj; return s)    \
  LAW(double, S02_##name##_eq_rows, params, call; return eqs(o, w, x), double s = eqs(o, w, x); const std::size_t n = o.eqs_.size(); slacks; neweq; return s)  \
  LAW(double, S02_##name##_ineq_rows, params, call; return ineqs(o, w, x), double s = ineqs(o, w, x); const std::size_t n = o.ineqs_.size(); slacks; newineq; return s)
#define NONE
TERM(aff, (ConvexObjective & o, const AffExpr& a, const X& x, const X& w), o.addAffExpr(a), NONE, s += a.value(x), NONE, NONE)
TERM(quad, (ConvexObjective & o, const QuadExpr& a, const X& x, const X& w), o.addQuadExpr(a), NONE, s += a.value(x), NONE, NONE)
// hinge: min c*h  with  e - h <= 0, h >= 0
TERM(hinge, (ConvexObjective & o, const AffExpr& a, double c, const X& x, const X& w), o.addHinge(a, c), Var h = slack(o), s += c * h.value(x), NONE,
     s += w[n] * (a.value(x) - h.value(x)))
// abs: min c*(g+p)  with  e + g - p == 0, g, p >= 0
TERM(abs, (ConvexObjective & o, const AffExpr& a, double c, const X& x, const X& w), o.addAbs(a, c), Var g = slackn(o); Var p = slackp(o),
     s += c * g.value(x) + c * p.value(x), s += w[n] * (a.value(x) + g.value(x) - p.value(x)), NONE)
// max: min m  with  e_i - m <= 0, m free
TERM(max, (ConvexObjective & o, const AffExprVector& e, const X& x, const X& w), o.addMax(e), Var m = freev(o), s += m.value(x), NONE,
     for (std::size_t i = 0; i < e.size(); ++i) s += w[n + i] * (e[i].value(x) - m.value(x)))
// squared L2 norm
TERM(l2, (ConvexObjective & o, const AffExprVector& e, const X& x, const X& w), o.addL2Norm(e), NONE,
     for (std::size_t i = 0; i < e.size(); ++i) s += e[i].value(x) * e[i].value(x), NONE, NONE)
TERM(hinges, (ConvexObjective & o, const AffExprVector& e, const X& x, const X& w), o.addHinges(e), NONE,
     for (std::size_t i = 0; i < e.size(); ++i) { Var h = slack(o); s += h.value(x); }, NONE,
     for (std::size_t i = 0; i < e.size(); ++i) { Var h = slack(o); s += w[n + i] * (e[i].value(x) - h.value(x)); })
TERM(l1, (ConvexObjective & o, const AffExprVector& e, const X& x, const X& w), o.addL1Norm(e), NONE,
     for (std::size_t i = 0; i < e.size(); ++i) { Var g = slackn(o); Var p = slackp(o); s += g.value(x) + p.value(x); },
     for (std::size_t i = 0; i < e.size(); ++i) { Var g = slackn(o); Var p = slackp(o); s += w[n + i] * (e[i].value(x) + g.value(x) - p.value(x)); }, NONE)

// posting: every row once, with its sense
LAW(void, S02_post_objective_calls, (ConvexObjective & o), o.addConstraintsToModel(),
    for (std::size_t i = 0; i < o.eqs_.size(); ++i) o.model_->addEqCnt(o.eqs_[i], "");
    for (std::size_t i = 0; i < o.ineqs_.size(); ++i) o.model_->addIneqCnt(o.ineqs_[i], ""))
LAW(void, S02_post_constraints_calls, (ConvexConstraints & o), o.addConstraintsToModel(),
    for (std::size_t i = 0; i < o.eqs_.size(); ++i) o.model_->addEqCnt(o.eqs_[i], "");
    for (std::size_t i = 0; i < o.ineqs_.size(); ++i) o.model_->addIneqCnt(o.ineqs_[i], ""))
LAW(AffExprVector, S02_cnt_add_eq, (ConvexConstraints & o, const AffExpr& a), o.addEqCnt(a); return o.eqs_, auto e = o.eqs_; e.push_back(a); return e)
LAW(AffExprVector, S02_cnt_add_eq_other, (ConvexConstraints & o, const AffExpr& a), o.addEqCnt(a); return o.ineqs_, return o.ineqs_)
LAW(AffExprVector, S02_cnt_add_ineq, (ConvexConstraints & o, const AffExpr& a), o.addIneqCnt(a); return o.ineqs_, auto e = o.ineqs_; e.push_back(a); return e)
LAW(AffExprVector, S02_cnt_add_ineq_other, (ConvexConstraints & o, const AffExpr& a), o.addIneqCnt(a); return o.eqs_, return o.eqs_)

// ---------------------------------------------------------------------------------------------- S03: ownership
#define OWN(name, params, call, slacks)                                                                                 \
  LAW(VarVector, S03_vars_##name##_set, params, call; return o.vars_, VarVector v = o.vars_; slacks; return v)            \
  LAW(CntVector, S03_cnts_##name##_set, params, call; return o.cnts_, return o.cnts_)                                     \
  LAW(Model*, S03_model_##name, params, call; return o.model_, return o.model_)
OWN(aff, (ConvexObjective & o, const AffExpr& a), o.addAffExpr(a), NONE)
OWN(quad, (ConvexObjective & o, const QuadExpr& a), o.addQuadExpr(a), NONE)
OWN(hinge, (ConvexObjective & o, const AffExpr& a, double c), o.addHinge(a, c), v.push_back(slack(o)))
OWN(abs, (ConvexObjective & o, const AffExpr& a, double c), o.addAbs(a, c), v.push_back(slackn(o)); v.push_back(slackp(o)))
OWN(max, (ConvexObjective & o, const AffExprVector& e), o.addMax(e), v.push_back(freev(o)))
OWN(l2, (ConvexObjective & o, const AffExprVector& e), o.addL2Norm(e), NONE)
OWN(hinges, (ConvexObjective & o, const AffExprVector& e), o.addHinges(e), for (std::size_t i = 0; i < e.size(); ++i) v.push_back(slack(o)))
OWN(l1, (ConvexObjective & o, const AffExprVector& e), o.addL1Norm(e), for (std::size_t i = 0; i < e.size(); ++i) { v.push_back(slackn(o)); v.push_back(slackp(o)); })
LAW(CntVector, S03_cnts_posted_set, (ConvexObjective & o), o.addConstraintsToModel(); return o.cnts_, CntVector c = o.cnts_;
    for (std::size_t i = 0; i < o.eqs_.size(); ++i) c.push_back(o.model_->addEqCnt(o.eqs_[i], ""));
    for (std::size_t i = 0; i < o.ineqs_.size(); ++i) c.push_back(o.model_->addIneqCnt(o.ineqs_[i], "")); return c)
LAW(VarVector, S03_vars_posted, (ConvexObjective & o), o.addConstraintsToModel(); return o.vars_, return o.vars_)
LAW(CntVector, S03_ccnts_posted_set, (ConvexConstraints & o), o.addConstraintsToModel(); return o.cnts_, CntVector c = o.cnts_;
    for (std::size_t i = 0; i < o.eqs_.size(); ++i) c.push_back(o.model_->addEqCnt(o.eqs_[i], ""));
    for (std::size_t i = 0; i < o.ineqs_.size(); ++i) c.push_back(o.model_->addIneqCnt(o.ineqs_[i], "")); return c)
LAW(CntVector, S03_ccnts_eq, (ConvexConstraints & o, const AffExpr& a), o.addEqCnt(a); return o.cnts_, return o.cnts_)
LAW(CntVector, S03_ccnts_ineq, (ConvexConstraints & o, const AffExpr& a), o.addIneqCnt(a); return o.cnts_, return o.cnts_)
// removal takes out everything recorded, then forgets the model; destruction removes what is still in a model
LAW(Model*, S03_remove_objective_calls, (ConvexObjective & o), o.removeFromModel(); return o.model_, o.model_->removeCnts(o.cnts_);
    o.model_->removeVars(o.vars_); return nullptr)
LAW(Model*, S03_remove_constraints_calls, (ConvexConstraints & o), o.removeFromModel(); return o.model_, o.model_->removeCnts(o.cnts_); return nullptr)
inline void destroyed(ConvexObjective& self)
{
  if (self.model_ != nullptr)
  {
    self.model_->removeCnts(self.cnts_);
    self.model_->removeVars(self.vars_);
  }
}
inline void destroyed_constraints(ConvexConstraints& self)
{
  if (self.model_ != nullptr)
    self.model_->removeCnts(self.cnts_);
}
LAW(Model*, S03_set_model, (ConvexConstraints & o, Model* m), o.setModel(m); return o.model_, return m)
LAW(bool, S03_in_model, (ConvexObjective & o), return o.inModel(), return o.model_ != nullptr)
LAW(bool, S03_in_model_constraints, (ConvexConstraints & o), return o.inModel(), return o.model_ != nullptr)
LAW(void, S03_remove_var_calls, (Model & m, const Var& v), m.Model::removeVar(v), m.removeVars(VarVector(1, v)))
LAW(void, S03_remove_cnt_calls, (Model & m, const Cnt& v), m.Model::removeCnt(v), m.removeCnts(CntVector(1, v)))

// ---------------------------------------------------------------------------------------------- S04: problem tables
LAW(DblVec, S04_lb_all, (OptProb & o, const DblVec& b), o.setLowerBounds(b); return o.lower_bounds_, return b)
LAW(DblVec, S04_ub_all, (OptProb & o, const DblVec& b), o.setUpperBounds(b); return o.upper_bounds_, return b)
LAW(DblVec, S04_lb_all_other, (OptProb & o, const DblVec& b), o.setLowerBounds(b); return o.upper_bounds_, return o.upper_bounds_)
LAW(DblVec, S04_ub_all_other, (OptProb & o, const DblVec& b), o.setUpperBounds(b); return o.lower_bounds_, return o.lower_bounds_)
LAW(DblVec, S04_lb_some, (OptProb & o, const DblVec& b, const VarVector& v), o.setLowerBounds(b, v); return o.lower_bounds_, DblVec r = o.lower_bounds_;
    for (std::size_t i = 0; i < v.size(); ++i) r[v[i].var_rep->index] = b[i]; return r)
LAW(DblVec, S04_ub_some, (OptProb & o, const DblVec& b, const VarVector& v), o.setUpperBounds(b, v); return o.upper_bounds_, DblVec r = o.upper_bounds_;
    for (std::size_t i = 0; i < v.size(); ++i) r[v[i].var_rep->index] = b[i]; return r)
LAW(DblVec, S04_lb_some_other, (OptProb & o, const DblVec& b, const VarVector& v), o.setLowerBounds(b, v); return o.upper_bounds_, return o.upper_bounds_)
LAW(DblVec, S04_ub_some_other, (OptProb & o, const DblVec& b, const VarVector& v), o.setUpperBounds(b, v); return o.lower_bounds_, return o.lower_bounds_)
// the free-standing helpers behind the partial setters
LAW(DblVec, S04_setvec, (DblVec x, const VarVector& v, const DblVec& b), setVec(x, v, b); return x,
    for (std::size_t i = 0; i < v.size(); ++i) x[v[i].var_rep->index] = b[i]; return x)
LAW(DblVec, S04_getvec, (const DblVec& x, const VarVector& v), return getVec1<DblVec>(x, v), DblVec r(v.size());
    for (std::size_t i = 0; i < v.size(); ++i) r[i] = x[v[i].var_rep->index]; return r)
// creation: tables and model agree, the new variables are returned
#define CREATE(field, T, rhs)                                                                                           \
  LAW(T, S04_create_##field, (OptProb & o, const std::vector<std::string>& n, const DblVec& lb, const DblVec& ub), o.createVariables(n, lb, ub); return o.field, T r = o.field; \
      for (std::size_t i = 0; i < n.size(); ++i) r.push_back(rhs); return r)
CREATE(vars_, VarVector, o.model_->addVar(n[i], lb[i], ub[i]))
CREATE(lower_bounds_, DblVec, lb[i])
CREATE(upper_bounds_, DblVec, ub[i])
LAW(VarVector, S04_create_returns, (OptProb & o, const std::vector<std::string>& n, const DblVec& lb, const DblVec& ub), return o.createVariables(n, lb, ub),
    VarVector r; for (std::size_t i = 0; i < n.size(); ++i) r.push_back(o.model_->addVar(n[i], lb[i], ub[i])); return r)
LAW(VarVector, S04_create_free_vars, (OptProb & o, const std::vector<std::string>& n), o.createVariables(n); return o.vars_,
    VarVector r = o.vars_; for (std::size_t i = 0; i < n.size(); ++i) r.push_back(o.model_->addVar(n[i], -INF, INF)); return r)
LAW(DblVec, S04_create_free_lb, (OptProb & o, const std::vector<std::string>& n), o.createVariables(n); return o.lower_bounds_,
    DblVec r = o.lower_bounds_; for (std::size_t i = 0; i < n.size(); ++i) r.push_back(-INF); return r)
LAW(DblVec, S04_create_free_ub, (OptProb & o, const std::vector<std::string>& n), o.createVariables(n); return o.upper_bounds_,
    DblVec r = o.upper_bounds_; for (std::size_t i = 0; i < n.size(); ++i) r.push_back(INF); return r)
LAW(void, S04_create_calls, (OptProb & o, const std::vector<std::string>& n, const DblVec& lb, const DblVec& ub), o.createVariables(n, lb, ub),
    for (std::size_t i = 0; i < n.size(); ++i) o.model_->addVar(n[i], lb[i], ub[i]); o.model_->update())
// costs and constraints
using Costs = std::vector<Cost::Ptr>;
using Cnts = std::vector<Constraint::Ptr>;
LAW(Costs, S04_add_cost, (OptProb & o, Cost::Ptr c), o.addCost(c); return o.costs_, Costs r = o.costs_; r.push_back(c); return r)
LAW(Cnts, S04_add_cnt_eqs, (OptProb & o, Constraint::Ptr c), o.addConstraint(c); return o.eqcnts_, Cnts r = o.eqcnts_;
    if (c->type() == EQ) r.push_back(c); return r)
LAW(Cnts, S04_add_cnt_ineqs, (OptProb & o, Constraint::Ptr c), o.addConstraint(c); return o.ineqcnts_, Cnts r = o.ineqcnts_;
    if (c->type() != EQ) r.push_back(c); return r)
LAW(Cnts, S04_add_eq, (OptProb & o, Constraint::Ptr c), o.addEqConstraint(c); return o.eqcnts_, Cnts r = o.eqcnts_; r.push_back(c); return r)
LAW(Cnts, S04_add_ineq, (OptProb & o, Constraint::Ptr c), o.addIneqConstraint(c); return o.ineqcnts_, Cnts r = o.ineqcnts_; r.push_back(c); return r)
LAW(Cnts, S04_all_cnts, (const OptProb& o), return o.getConstraints(), Cnts r = o.eqcnts_;
    for (std::size_t i = 0; i < o.ineqcnts_.size(); ++i) r.push_back(o.ineqcnts_[i]); return r)
LAW(void, S04_linear_calls, (OptProb & o, const AffExpr& e, ConstraintType t), o.addLinearConstraint(e, t),
    if (t == EQ) o.model_->addEqCnt(e, ""); else o.model_->addIneqCnt(e, ""))
LAW(Costs, S04_get_costs, (OptProb & o), return o.getCosts(), return o.costs_)
LAW(Cnts, S04_get_ineqs, (OptProb & o), return o.getIneqConstraints(), return o.ineqcnts_)
LAW(Cnts, S04_get_eqs, (OptProb & o), return o.getEqConstraints(), return o.eqcnts_)
LAW(DblVec, S04_get_lb, (OptProb & o), return o.getLowerBounds(), return o.lower_bounds_)
LAW(DblVec, S04_get_ub, (OptProb & o), return o.getUpperBounds(), return o.upper_bounds_)
LAW(VarVector, S04_get_vars, (OptProb & o), return o.getVars(), return o.vars_)
LAW(int, S04_num_costs, (OptProb & o), return o.getNumCosts(), return o.costs_.size())
LAW(int, S04_num_cnts, (OptProb & o), return o.getNumConstraints(), return o.eqcnts_.size() + o.ineqcnts_.size())
LAW(int, S04_num_vars, (OptProb & o), return o.getNumVars(), return o.vars_.size())

// ---------------------------------------------------------------------------------------------- S05: feasible points
LAW(DblVec, S05_closest, (OptProb & o, const DblVec& x, double d), return o.getClosestFeasiblePoint(x, d), DblVec y(x.size());
    for (std::size_t i = 0; i < x.size(); ++i) y[i] = std::fmin(o.upper_bounds_[i] - d, std::fmax(o.lower_bounds_[i] + d, x[i])); return y)
LAW(DblVec, S05_central, (OptProb & o, const DblVec& x), return o.getCentralFeasiblePoint(x), DblVec y(x.size());
    for (std::size_t i = 0; i < x.size(); ++i)
      y[i] = std::fmin(o.upper_bounds_[i] - 1e-3, std::fmax(o.lower_bounds_[i] + 1e-3, (o.lower_bounds_[i] + o.upper_bounds_[i]) / 2)); return y)
inline DblVec closest_qp(OptProb& self, const DblVec& x)
{
  QuadExpr obj;
  for (std::size_t i = 0; i < x.size(); ++i)
    exprInc(obj, exprSquare(exprSub(AffExpr(self.vars_[i]), x[i])));
  self.model_->setVarBounds(self.vars_, self.lower_bounds_, self.upper_bounds_);
  self.model_->setObjective(obj);
  if (self.model_->optimize() != CVX_SOLVED)
  {
    self.model_->writeToFile("/tmp/fail.lp");
    throw std::runtime_error("");
  }
  return self.model_->getVarValues(self.vars_);
}

// ---------------------------------------------------------------------------------------------- S06: violations
LAW(DblVec, S06_exact, (Constraint & c, const DblVec& x), return c.violations(x), DblVec v = c.value(x); DblVec r(v.size());
    if (c.type() == EQ) for (std::size_t i = 0; i < v.size(); ++i) r[i] = std::fabs(v[i]);
    else for (std::size_t i = 0; i < v.size(); ++i) r[i] = std::fmax(v[i], 0.0);
    return r)
LAW(double, S06_exact_total, (Constraint & c, const DblVec& x), return c.violation(x), DblVec v = c.value(x); double r = 0;
    if (c.type() == EQ) for (std::size_t i = 0; i < v.size(); ++i) r += std::fabs(v[i]);
    else for (std::size_t i = 0; i < v.size(); ++i) r += std::fmax(v[i], 0.0);
    return r)
LAW(DblVec, S06_convex, (ConvexConstraints & c, const DblVec& x), return c.violations(x), DblVec r;
    for (std::size_t i = 0; i < c.eqs_.size(); ++i) r.push_back(std::fabs(c.eqs_[i].value(x)));
    for (std::size_t i = 0; i < c.ineqs_.size(); ++i) r.push_back(std::fmax(c.ineqs_[i].value(x), 0.0)); return r)
LAW(double, S06_convex_total, (ConvexConstraints & c, const DblVec& x), return c.violation(x), double r = 0;
    for (std::size_t i = 0; i < c.eqs_.size(); ++i) r += std::fabs(c.eqs_[i].value(x));
    for (std::size_t i = 0; i < c.ineqs_.size(); ++i) r += std::fmax(c.ineqs_[i].value(x), 0.0); return r)
LAW(int, S06_type_eq, (EqConstraint & c), return static_cast<int>(c.EqConstraint::type()), return static_cast<int>(EQ))
LAW(int, S06_type_ineq, (IneqConstraint & c), return static_cast<int>(c.IneqConstraint::type()), return static_cast<int>(INEQ))
LAW(double, S06_vecsum, (const DblVec& v), return vecSum(v), double r = 0; for (std::size_t i = 0; i < v.size(); ++i) r += v[i]; return r)
LAW(double, S06_vecabssum, (const DblVec& v), return vecAbsSum(v), double r = 0; for (std::size_t i = 0; i < v.size(); ++i) r += std::fabs(v[i]); return r)
LAW(double, S06_vechingesum, (const DblVec& v), return vecHingeSum(v), double r = 0; for (std::size_t i = 0; i < v.size(); ++i) r += std::fmax(v[i], 0.0); return r)
LAW(double, S06_pospart, (double v), return pospart(v), return std::fmax(v, 0.0))
LAW(double, S06_sq, (double v), return sq(v), return v * v)
LAW(double, S06_vecdot, (const DblVec& v, const DblVec& w), return vecDot(v, w), double r = 0; for (std::size_t i = 0; i < v.size(); ++i) r += v[i] * w[i]; return r)
LAW(double, S06_vecmax, (const DblVec& v), return vecMax(v), return *std::max_element(v.begin(), v.end()))
}  // namespace spec
