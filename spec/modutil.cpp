// Reference meaning of trajopt_sco/modeling_utils and num_diff
#include <bits/stdc++.h>
#define private public
#define protected public
#include <Eigen/Eigenvalues>
#include <trajopt_sco/modeling_utils.hpp>
#include <trajopt_sco/expr_ops.hpp>
#include <trajopt_sco/num_diff.hpp>
#include <trajopt_common/eigen_conversions.hpp>
namespace sco
{
extern const double DEFAULT_EPSILON;
}
namespace spec
{
using namespace sco;
using X = DblVec;
using V = Eigen::VectorXd;
using M = Eigen::MatrixXd;
#define LAW(ret, name, params, lhs, rhs)                                                                                \
  ret lhs_##name params { lhs; }                                                                                        \
  ret rhs_##name params { rhs; }
#define NONE
LAW(V, S07_getvec, (const X& x, const VarVector& v), return getVec(x, v), V o(v.size()); for (std::size_t i = 0; i < v.size(); ++i) o[i] = x[v[i].var_rep->index]; return o)
LAW(X, S07_getdblvec, (const X& x, const VarVector& v), return getDblVec(x, v), X o(v.size()); for (std::size_t i = 0; i < v.size(); ++i) o[i] = x[v[i].var_rep->index]; return o)
inline AffExpr tangent(double y, const V& x, const V& g, const VarVector& v)
{
  AffExpr a;
  a.constant = y;
  for (int i = 0; i < g.size(); ++i) a.constant -= g[i] * x[i];
  for (int i = 0; i < g.size(); ++i) a.coeffs.push_back(g[i]);
  a.vars = v;
  return cleanupAff(a);
}
LAW(double, S07_tangent, (double y, const V& x, const V& g, const VarVector& v, const X& z), return affFromValGrad(y, x, g, v).value(z), return tangent(y, x, g, v).value(z))

LAW(double, S07_func_value, (CostFromFunc & c, const X& x), return c.CostFromFunc::value(x), return c.f_->call(getVec(x, c.vars_)))
LAW(double, S07_func_diag, (CostFromFunc & c, const X& x, Model* m, const X& z), c.full_hessian_ = false; return c.CostFromFunc::convex(x, m)->quad_.value(z),
    c.full_hessian_ = false; const V xe = getVec(x, c.vars_); double y = 0; V g; V h; calcGradAndDiagHess(*c.f_, xe, c.epsilon_, y, g, h); double r = y;
    for (std::size_t i = 0; i < c.vars_.size(); ++i) { double d = z[c.vars_[i].var_rep->index] - xe[i]; r += g[i] * d + 0.5 * std::fmax(h[i], 0.0) * d * d; } return r)

// squared/absolute/hinge penalty of the weighted error
inline double pen(PenaltyType t, double e) { return t == SQUARED ? e * e : t == ABS ? std::fabs(e) : std::fmax(e, 0.0); }
#define ERRVAL(name, T)                                                                                                 \
  LAW(double, S07_err_value_##name, (CostFromErrFunc & c, const X& x), c.pen_type_ = T; return c.CostFromErrFunc::value(x), const V e = c.f_->call(getVec(x, c.vars_)); double r = 0; \
      for (int i = 0; i < e.size(); ++i) r += (c.coeffs_.size() > 0 ? c.coeffs_[i] : 1.0) * pen(T, e[i]); return r)
ERRVAL(squared, SQUARED)
ERRVAL(abs, ABS)
ERRVAL(hinge, HINGE)
inline M jac_at(CostFromErrFunc& c, const V& x) { return c.dfdx_ ? c.dfdx_->call(x) : calcForwardNumJac(*c.f_, x, c.epsilon_); }
inline M jac_at(ConstraintFromErrFunc& c, const V& x) { return c.dfdx_ ? c.dfdx_->call(x) : calcForwardNumJac(*c.f_, x, c.epsilon_); }
// every row, weighted arbitrarily
inline double rows(const AffExprVector& e, const X& w, const X& z)
{
  double s = 0;
  for (std::size_t k = 0; k < e.size(); ++k) s += w[k] * e[k].value(z);
  return s;
}
#define ERRCVX(name, T, view, init, term)                                                                               \
  LAW(double, S07_err_convex_##name, (CostFromErrFunc & c, const X& x, Model* m, const X& z, const X& w), c.pen_type_ = T; auto o = c.CostFromErrFunc::convex(x, m); return view, \
      const V xe = getVec(x, c.vars_); const M J = jac_at(c, xe); const V y = c.f_->call(xe); init; std::size_t k = 0; \
      for (int i = 0; i < J.rows(); ++i) { if (c.coeffs_.size() > 0 && c.coeffs_[i] == 0) continue; const double k = c.coeffs_.size() > 0 ? c.coeffs_[i] : 1.0; \
        const AffExpr a = tangent(y[i], xe, J.row(i), c.vars_); term; } return s)
inline Var slack(Model* m) { return m->addVar("hinge", 0, static_cast<double>(INFINITY)); }
inline Var slackn(Model* m) { return m->addVar("neg", 0, static_cast<double>(INFINITY)); }
inline Var slackp(Model* m) { return m->addVar("pos", 0, static_cast<double>(INFINITY)); }
ERRCVX(squared, SQUARED, o->quad_.value(z), double s = 0, s += k * a.value(z) * a.value(z))
ERRCVX(squared_eqs, SQUARED, o->eqs_.size(), std::size_t s = 0, NONE)
ERRCVX(squared_ineqs, SQUARED, o->ineqs_.size(), std::size_t s = 0, NONE)
ERRCVX(abs, ABS, o->quad_.value(z), double s = 0, Var n = slackn(m); Var p = slackp(m); s += n.value(z) + p.value(z))
ERRCVX(hinge, HINGE, o->quad_.value(z), double s = 0, Var h = slack(m); s += h.value(z))
#define ERRROWS(name, T, view, term)                                                                                    \
  LAW(double, S07_err_convex_##name, (CostFromErrFunc & c, const X& x, Model* m, const X& z, const X& w), c.pen_type_ = T; auto o = c.CostFromErrFunc::convex(x, m); return rows(view, w, z), \
      const V xe = getVec(x, c.vars_); const M J = jac_at(c, xe); const V y = c.f_->call(xe); AffExprVector r; \
      for (int i = 0; i < J.rows(); ++i) { if (c.coeffs_.size() > 0 && c.coeffs_[i] == 0) continue; const double k = c.coeffs_.size() > 0 ? c.coeffs_[i] : 1.0; \
        AffExpr a = tangent(y[i], xe, J.row(i), c.vars_); exprScale(a, k); term; r.push_back(a); } return rows(r, w, z))
ERRROWS(abs_eqs, ABS, o->eqs_, Var n = slackn(m); Var p = slackp(m); exprInc(a, n); exprDec(a, p))
ERRROWS(hinge_ineqs, HINGE, o->ineqs_, exprDec(a, slack(m)))
#undef slack

LAW(X, S07_cnt_value, (ConstraintFromErrFunc & c, const X& x), return c.ConstraintFromErrFunc::value(x), const V e = c.f_->call(getVec(x, c.vars_)); X r;
    for (int i = 0; i < e.size(); ++i) r.push_back(c.coeffs_.size() > 0 ? c.coeffs_[i] * e[i] : e[i]); return r)
#define CNTROWS(name, T, view, cond)                                                                                    \
  LAW(double, S07_cnt_convex_##name, (ConstraintFromErrFunc & c, const X& x, Model* m, const X& z, const X& w), c.type_ = T; auto o = c.ConstraintFromErrFunc::convex(x, m); return rows(view, w, z), \
      const V xe = getVec(x, c.vars_); const M J = jac_at(c, xe); const V y = c.f_->call(xe); AffExprVector r; \
      if (cond) for (int i = 0; i < J.rows(); ++i) { if (c.coeffs_.size() > 0 && c.coeffs_[i] == 0) continue; const double k = c.coeffs_.size() > 0 ? c.coeffs_[i] : 1.0; \
        AffExpr a = tangent(y[i], xe, J.row(i), c.vars_); exprScale(a, k); r.push_back(a); } return rows(r, w, z))
CNTROWS(ineqs, INEQ, o->ineqs_, true)
CNTROWS(ineqs_eq, INEQ, o->eqs_, false)
CNTROWS(eqs, EQ, o->eqs_, true)
CNTROWS(eqs_ineq, EQ, o->ineqs_, false)
LAW(int, S07_cnt_type, (ConstraintFromErrFunc & c), return c.ConstraintFromErrFunc::type(), return c.type_)
LAW(VarVector, S07_vars_func, (CostFromFunc & c), return c.CostFromFunc::getVars(), return c.vars_)
LAW(VarVector, S07_vars_err, (CostFromErrFunc & c), return c.CostFromErrFunc::getVars(), return c.vars_)
LAW(VarVector, S07_vars_cnt, (ConstraintFromErrFunc & c), return c.ConstraintFromErrFunc::getVars(), return c.vars_)
}  // namespace spec
