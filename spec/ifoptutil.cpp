// Reference meaning of the trajectory and limit helpers of trajopt_ifopt/utils/ifopt_utils
#include <bits/stdc++.h>
#define private public
#define protected public
#include <trajopt_ifopt/core/bounds.h>
#include <trajopt_ifopt/core/problem.h>
#include <trajopt_ifopt/utils/ifopt_utils.h>
namespace spec
{
using namespace trajopt_ifopt;
using V = Eigen::VectorXd;
using M = Eigen::MatrixXd;
#define LAW(ret, name, params, lhs, rhs)                                                                                \
  ret lhs_##name params { lhs; }                                                                                        \
  ret rhs_##name params { rhs; }
#define LAWP(ret, name, params, pre, lhs, rhs)                                                                          \
  ret lhs_##name params { if (!(pre)) throw 0; lhs; }                                                                   \
  ret rhs_##name params { if (!(pre)) throw 0; rhs; }
using M2 = Eigen::MatrixX2d;
LAW(double, I06_limits_lower, (const M2& m, int i), return toBounds(m)[i].getLower(), V o(m.rows()); for (int k = 0; k < m.rows(); ++k) o[k] = m(k, 0); return o[i])
LAW(double, I06_limits_upper, (const M2& m, int i), return toBounds(m)[i].getUpper(), V o(m.rows()); for (int k = 0; k < m.rows(); ++k) o[k] = m(k, 1); return o[i])
LAW(long, I06_limits_size, (const M2& m), return toBounds(m).size(), return m.rows())
LAWP(double, I06_pair_lower, (const V& l, const V& u, int i), l.size() == u.size(), return toBounds(l, u)[i].getLower(), return l[i])
LAWP(double, I06_pair_upper, (const V& l, const V& u, int i), l.size() == u.size(), return toBounds(l, u)[i].getUpper(), return u[i])
LAWP(long, I06_pair_size, (const V& l, const V& u), l.size() == u.size(), return toBounds(l, u).size(), return l.size())
LAWP(double, I06_interpolate, (const V& a, const V& b, long n, int i, int j), a.size() == b.size() && n >= 2, return interpolate(a, b, n)[i][j],
     M o(n, a.size()); for (int k = 0; k < n; ++k) for (int c = 0; c < a.size(); ++c) o(k, c) = a[c] + k * (b[c] - a[c]) / (n - 1); return o(i, j))
LAWP(double, I06_interpolate_first, (const V& a, const V& b, long n, int j), a.size() == b.size() && n >= 2, return interpolate(a, b, n)[0][j], return a[j])
LAWP(double, I06_interpolate_last, (const V& a, const V& b, long n, int j), a.size() == b.size() && n >= 2, return interpolate(a, b, n)[n - 1][j], return b[j])
LAWP(long, I06_interpolate_steps, (const V& a, const V& b, long n), a.size() == b.size() && n >= 2, return interpolate(a, b, n).size(), return n)
LAWP(long, I06_interpolate_size, (const V& a, const V& b, long n, int i), a.size() == b.size() && n >= 2 && i >= 0 && i < n, return interpolate(a, b, n)[i].size(), return a.size())
// difference quotients over the whole problem: every variable perturbed alone, the variables put back
inline V cost_gradient(const double* x, Problem& p, double e)
{
  const V keep = p.getVariableValues();
  const int n = p.getNumberOfOptimizationVariables();
  V o = V::Zero(n);
  if (p.hasCostTerms())
  {
    p.setVariables(x);
    const double f = p.evaluateCostFunction();
    for (int i = 0; i < n; ++i)
    {
      std::vector<double> y(x, x + n);
      y[i] = x[i] + e;
      p.setVariables(y.data());
      o[i] = (p.evaluateCostFunction() - f) / e;
    }
  }
  p.setVariables(keep.data());
  return o;
}
inline M constraint_gradient(const double* x, Problem& p, double e)
{
  const V keep = p.getVariableValues();
  const int n = p.getNumberOfOptimizationVariables();
  const int m = p.getConstraints().getRows();
  M o = M::Zero(m, n);
  if (p.getNumberOfConstraints() > 0 && n > 0)
  {
    p.setVariables(x);
    const V f = p.evaluateConstraints();
    for (int i = 0; i < n; ++i)
    {
      std::vector<double> y(x, x + n);
      y[i] = x[i] + e;
      p.setVariables(y.data());
      const V g = p.evaluateConstraints();
      for (int r = 0; r < m; ++r)
        o(r, i) = (g[r] - f[r]) / e;
    }
  }
  p.setVariables(keep.data());
  return o;
}
inline M set_gradient(Variables& v, ConstraintSet& c, double e)
{
  const int n = v.getRows();
  const int m = c.getRows();
  M o = M::Zero(m, n);
  if (m == 0 || n == 0 || c.getBounds().empty())
    return o;
  const V x = v.getValues();
  c.update();
  const V f = c.getValues();
  for (int i = 0; i < n; ++i)
  {
    V y = x;
    y[i] = x[i] + e;
    v.setVariables(y);
    c.update();
    const V g = c.getValues();
    for (int r = 0; r < m; ++r)
      o(r, i) = (g[r] - f[r]) / e;
  }
  v.setVariables(x);
  c.update();
  return o;
}
LAW(double, S08_cost_gradient_calls, (const double* x, Problem& p, double e, int i), return calcNumericalCostGradient(x, p, e)[i], return cost_gradient(x, p, e)[i])
LAW(double, S08_constraint_gradient_calls, (const double* x, Problem& p, double e, int i, int j), return M(calcNumericalConstraintGradient(x, p, e))(i, j), return constraint_gradient(x, p, e)(i, j))
LAW(double, S08_set_gradient_calls, (Variables & v, ConstraintSet& c, double e, int i, int j), return M(calcNumericalConstraintGradient(v, c, e))(i, j), return set_gradient(v, c, e)(i, j))
}  // namespace spec
