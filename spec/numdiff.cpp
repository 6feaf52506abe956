// Reference meaning of trajopt_sco/num_diff and trajopt_ifopt/utils/numeric_differentiation
#include <bits/stdc++.h>
#define private public
#define protected public
#include <trajopt_sco/num_diff.hpp>
#include <trajopt_ifopt/utils/numeric_differentiation.h>
namespace spec
{
using namespace sco;
using V = Eigen::VectorXd;
using M = Eigen::MatrixXd;
#define LAW(ret, name, params, lhs, rhs)                                                                                \
  ret lhs_##name params { lhs; }                                                                                        \
  ret rhs_##name params { rhs; }
inline V at(const V& x, int i, double d)
{
  V r = x;
  r[i] = x[i] + d;
  return r;
}
// one entry at a time, at an arbitrary position
LAW(double, S08_grad, (const ScalarOfVector& f, const V& x, double e, int j), return calcForwardNumGrad(f, x, e)[j], V o(x.size()); for (int i = 0; i < x.size(); ++i) o[i] = (f(at(x, i, e)) - f(x)) / e; return o[j])
LAW(long, S08_grad_size, (const ScalarOfVector& f, const V& x, double e), return calcForwardNumGrad(f, x, e).size(), return x.size())
LAW(M, S08_jac, (const VectorOfVector& f, const V& x, double e), return calcForwardNumJac(f, x, e), V y = f(x); M o(y.size(), x.size());
    for (int j = 0; j < x.size(); ++j) o.col(j) = (f(at(x, j, e)) - y) / e; return o)
LAW(double, S08_gh_value, (const ScalarOfVector& f, const V& x, double e), double y; V g; V h; calcGradAndDiagHess(f, x, e, y, g, h); return y, return f(x))
LAW(V, S08_gh_grad, (const ScalarOfVector& f, const V& x, double e), double y; V g; V h; calcGradAndDiagHess(f, x, e, y, g, h); return g, V o(x.size());
    for (int i = 0; i < x.size(); ++i) o[i] = (f(at(x, i, e / 2)) - f(at(x, i, -e / 2))) / e; return o)
LAW(V, S08_gh_hess, (const ScalarOfVector& f, const V& x, double e), double y; V g; V h; calcGradAndDiagHess(f, x, e, y, g, h); return h, V o(x.size());
    for (int i = 0; i < x.size(); ++i) o[i] = (f(at(x, i, e / 2)) + f(at(x, i, -e / 2)) - 2 * f(x)) / ((e / 2) * (e / 2)); return o)
LAW(double, S08_full_value, (const ScalarOfVector::Ptr& f, const V& x, double e), double y; V g; M h; calcGradHess(f, x, e, y, g, h); return y, return (*f)(x))
LAW(V, S08_full_grad, (const ScalarOfVector::Ptr& f, const V& x, double e), double y; V g; M h; calcGradHess(f, x, e, y, g, h); return g, return calcForwardNumGrad(*f, x, e))
inline M hess(const VectorOfVector& g, const V& x, double e)
{
  const M h = calcForwardNumJac(g, x, e);
  M o(h.rows(), h.cols());
  for (int i = 0; i < h.rows(); ++i) for (int j = 0; j < h.cols(); ++j) o(i, j) = (h(i, j) + h(j, i)) / 2;
  return o;
}
LAW(M, S08_full_hess, (const ScalarOfVector::Ptr& f, const V& x, double e), double y; V g; M h; calcGradHess(f, x, e, y, g, h); return h, return hess(*forwardNumGrad(f, e), x, e))
LAW(V, S08_fgrad, (ScalarOfVector::Ptr f, const V& x, double e), return forwardNumGrad(f, e)->call(x), return calcForwardNumGrad(*f, x, e))
LAW(M, S08_fjac, (VectorOfVector::Ptr f, const V& x, double e), return forwardNumJac(f, e)->call(x), return calcForwardNumJac(*f, x, e))
LAW(double, S08_wrap_s, (ScalarOfVector::func f, const V& x), return ScalarOfVector::construct(f)->call(x), return f(x))
LAW(V, S08_wrap_v, (VectorOfVector::func f, const V& x), return VectorOfVector::construct(f)->call(x), return f(x))
LAW(M, S08_wrap_m, (MatrixOfVector::func f, const V& x), return MatrixOfVector::construct(f)->call(x), return f(x))
LAW(M, S08_ifopt_jac, (const trajopt_ifopt::ErrorCalculator& f, const V& x, double e), return M(trajopt_ifopt::calcForwardNumJac(f, x, e)), V y = f(x); M o(y.size(), x.size());
    for (int j = 0; j < x.size(); ++j) o.col(j) = (f(at(x, j, e)) - y) / e; return o)
}  // namespace spec
