// Reference meaning of trajopt_sqp/expressions
#include <bits/stdc++.h>
#define private public
#define protected public
#include <trajopt_sqp/expressions.h>
namespace spec
{
using namespace trajopt_sqp;
using V = Eigen::VectorXd;
using M = Eigen::MatrixXd;
using J = trajopt_ifopt::Jacobian;
#define LAW(ret, name, params, lhs, rhs)                                                                                \
  ret lhs_##name params { lhs; }                                                                                        \
  ret rhs_##name params { rhs; }
// the sizes that the containers and arguments agree on
#define LAWP(ret, name, params, pre, lhs, rhs)                                                                          \
  ret lhs_##name params { if (!(pre)) throw 0; lhs; }                                                                   \
  ret rhs_##name params { if (!(pre)) throw 0; rhs; }
#define AFF (e.linear_coeffs.rows() == e.constants.size())
#define AFFW (e.linear_coeffs.rows() == e.constants.size() && w.size() == e.constants.size())
#define GEN (f.size() == A.rows() && x0.size() == A.cols())
#define GENH (f.size() == A.rows() && x0.size() == A.cols() && (long)H.size() == f.size() && H[i].rows() == A.cols() && H[i].cols() == A.cols())
inline double lin(const J& A, int i, const V& x)
{
  double s = 0;
  for (int j = 0; j < x.size(); ++j) s += M(A)(i, j) * x[j];
  return s;
}
inline double quad(const J& Q, const V& x)
{
  double s = 0;
  for (int a = 0; a < x.size(); ++a) for (int b = 0; b < x.size(); ++b) s += x[a] * M(Q)(a, b) * x[b];
  return s;
}
// c + A x
LAWP(double, Q01_aff_value, (const AffExprs& e, const V& x, int i), AFF, V o(e.constants.size()); e.values(o, x); return o[i], return e.constants[i] + lin(e.linear_coeffs, i, x))
LAWP(long, Q01_aff_value_size, (const AffExprs& e, const V& x), AFF, V o(e.constants.size()); e.values(o, x); return o.size(), return e.constants.size())
// value and Jacobian at the expansion point
LAWP(double, Q01_aff_create_constant, (AffExprs & e, const V& f, const J& A, const V& x0, int i), GEN, e.create(f, A, x0); return e.constants[i], return f[i] - lin(A, i, x0))
LAWP(long, Q01_aff_create_size, (AffExprs & e, const V& f, const J& A, const V& x0), GEN, e.create(f, A, x0); return e.constants.size(), return f.size())
LAWP(double, Q01_aff_create_linear, (AffExprs & e, const V& f, const J& A, const V& x0, int i, int j), GEN, e.create(f, A, x0); return M(e.linear_coeffs)(i, j), return M(A)(i, j))
// w (c + A x)^2
LAWP(double, Q01_square_constant, (const AffExprs& e, QuadExprs& q, const V& w, int i), AFFW, e.square(q, w); return q.constants[i], return w[i] * e.constants[i] * e.constants[i])
LAWP(long, Q01_square_size, (const AffExprs& e, QuadExprs& q, const V& w), AFFW, e.square(q, w); return q.constants.size(), return e.constants.size())
LAWP(double, Q01_square_linear, (const AffExprs& e, QuadExprs& q, const V& w, int i, int j), AFFW, e.square(q, w); return M(q.linear_coeffs)(i, j), return 2 * w[i] * e.constants[i] * M(e.linear_coeffs)(i, j))
LAWP(double, Q01_square_objective_linear, (const AffExprs& e, QuadExprs& q, const V& w, int j), AFFW, e.square(q, w); return q.objective_linear_coeffs[j],
    double s = 0; for (int i = 0; i < e.constants.size(); ++i) s += 2 * w[i] * e.constants[i] * M(e.linear_coeffs)(i, j); return s)
LAWP(double, Q01_square_objective_quadratic, (const AffExprs& e, QuadExprs& q, const V& w, int r, int c), AFFW, e.square(q, w); return M(q.objective_quadratic_coeffs)(r, c),
    double s = 0; for (int i = 0; i < e.linear_coeffs.rows(); ++i) s += std::sqrt(w[i]) * M(e.linear_coeffs)(i, r) * (std::sqrt(w[i]) * M(e.linear_coeffs)(i, c)); return s)
LAWP(long, Q01_square_terms, (const AffExprs& e, QuadExprs& q, const V& w), AFFW, e.square(q, w); return q.quadratic_coeffs.size(), return e.constants.size())
LAWP(double, Q01_square_value, (const AffExprs& e, QuadExprs& q, const V& w, const V& x, int i), AFFW && e.constants.size() > 0, e.square(q, w); V o(e.constants.size()); q.values(o, x); return o[i],
    const double r = std::sqrt(w[i]) * lin(e.linear_coeffs, i, x); return w[i] * e.constants[i] * e.constants[i] + 2 * w[i] * e.constants[i] * lin(e.linear_coeffs, i, x) + r * r)
// c + A x + x'Qx, a single row q standing for (qx)^2
LAWP(double, Q01_quad_value, (const QuadExprs& e, const V& x, int i), AFF && (e.quadratic_coeffs.empty() || ((long)e.quadratic_coeffs.size() == e.constants.size() && (e.quadratic_coeffs[i].rows() == 0 || (e.quadratic_coeffs[i].cols() == x.size() && (e.quadratic_coeffs[i].rows() == 1 || e.quadratic_coeffs[i].rows() == x.size()))))), V o(e.constants.size()); e.values(o, x); return o[i],
    const double a = e.constants[i] + lin(e.linear_coeffs, i, x); if (e.quadratic_coeffs.empty()) return a; const J& Q = e.quadratic_coeffs[i]; if (Q.rows() == 0) return a;
    if (Q.rows() == 1 && Q.cols() > 1) return a + lin(Q, 0, x) * lin(Q, 0, x); return a + quad(Q, x))
LAWP(long, Q01_quad_value_size, (const QuadExprs& e, const V& x), AFF, V o(e.constants.size()); e.values(o, x); return o.size(), return e.constants.size())
// value and gradient at the expansion point, half the given (symmetric) Hessian
LAWP(double, Q01_quad_create_constant, (QuadExprs & e, const V& f, const J& A, const std::vector<J>& H, const V& x0, int i), GENH, e.create(f, A, H, x0); return e.constants[i],
    return f[i] - lin(A, i, x0) + quad(H[i], x0) / 2)
LAWP(double, Q01_quad_create_linear, (QuadExprs & e, const V& f, const J& A, const std::vector<J>& H, const V& x0, int i, int j), GENH, e.create(f, A, H, x0); return M(e.linear_coeffs)(i, j),
    return M(A)(i, j) - lin(H[i], j, x0))
LAWP(double, Q01_quad_create_quadratic, (QuadExprs & e, const V& f, const J& A, const std::vector<J>& H, const V& x0, int i, int r, int c), GENH, e.create(f, A, H, x0); return M(e.quadratic_coeffs[i])(r, c),
    return M(H[i])(r, c) / 2)
LAWP(long, Q01_quad_create_terms, (QuadExprs & e, const V& f, const J& A, const std::vector<J>& H, const V& x0), GEN && (long)H.size() == f.size(), e.create(f, A, H, x0); return e.quadratic_coeffs.size(), return f.size())
// the model at the expansion point, and everywhere else
LAWP(double, Q01_quad_create_value_at, (QuadExprs & e, const V& f, const J& A, const std::vector<J>& H, const V& x0, int i), GENH && f.size() > 0, e.create(f, A, H, x0); V o(f.size()); e.values(o, x0); return o[i], return f[i])
LAWP(double, Q01_quad_create_value, (QuadExprs & e, const V& f, const J& A, const std::vector<J>& H, const V& x0, const V& x, int i), GENH && f.size() > 0 && x.size() == x0.size(), e.create(f, A, H, x0); V o(f.size()); e.values(o, x); return o[i],
     double c = 0; for (int a = 0; a < x.size(); ++a) for (int b = 0; b < x.size(); ++b) c += x[a] * M(H[i])(a, b) * x0[b];
     return f[i] - lin(A, i, x0) + lin(A, i, x) + quad(H[i], x0) / 2 + quad(H[i], x) / 2 - c)
// an empty container is zero everywhere
LAW(double, Q01_quad_new_constant, (long m, long n, int i), QuadExprs e(m, n); return e.constants[i], V z = V::Zero(m); return z[i])
LAW(double, Q01_quad_new_linear, (long m, long n, int i, int j), QuadExprs e(m, n); return M(e.linear_coeffs)(i, j), M z = M::Zero(m, n); return z(i, j))
LAW(double, Q01_quad_new_objective_linear, (long m, long n, int j), QuadExprs e(m, n); return e.objective_linear_coeffs[j], V z = V::Zero(n); return z[j])
LAW(double, Q01_quad_new_objective_quadratic, (long m, long n, int i, int j), QuadExprs e(m, n); return M(e.objective_quadratic_coeffs)(i, j), M z = M::Zero(n, n); return z(i, j))
LAW(bool, Q01_quad_new_terms, (long m, long n), QuadExprs e(m, n); return e.quadratic_coeffs.empty(), return true)
}  // namespace spec
