// Laws of the expression algebra: both sides are computed by the analysed program's own evaluation.
#include <trajopt_sco/expr_ops.hpp>
#include <trajopt_sco/expr_vec_ops.hpp>
namespace spec
{
using namespace sco;
using X = DblVec;
#define LAW(name, params, lhs, rhs)                                                                                    \
  double lhs_##name params { lhs; }                                                                                    \
  double rhs_##name params { rhs; }

// construction
LAW(aff_of_const, (double a, const X& x), return AffExpr(a).value(x), return a)
LAW(aff_of_var, (const Var& v, const X& x), return AffExpr(v).value(x), return v.value(x))
LAW(quad_of_const, (double a, const X& x), return QuadExpr(a).value(x), return a)
LAW(quad_of_var, (const Var& v, const X& x), return QuadExpr(v).value(x), return v.value(x))
LAW(quad_of_aff, (const AffExpr& a, const X& x), return QuadExpr(a).value(x), return a.value(x))
// evaluation
LAW(aff_value, (const AffExpr& a, const X& x), return a.value(x), double s = a.constant;
    for (std::size_t i = 0; i < a.coeffs.size(); ++i) s += a.coeffs[i] * x[a.vars[i].var_rep->index];
    return s)
LAW(aff_value_p, (const AffExpr& a, const double* x), return a.value(x), double s = a.constant;
    for (std::size_t i = 0; i < a.coeffs.size(); ++i) s += a.coeffs[i] * x[a.vars[i].var_rep->index];
    return s)
LAW(quad_value, (const QuadExpr& a, const X& x), return a.value(x), double s = a.affexpr.value(x);
    for (std::size_t i = 0; i < a.coeffs.size(); ++i) s += a.coeffs[i] * x[a.vars1[i].var_rep->index] * x[a.vars2[i].var_rep->index];
    return s)
LAW(quad_value_p, (const QuadExpr& a, const double* x), return a.value(x), double s = a.affexpr.value(x);
    for (std::size_t i = 0; i < a.coeffs.size(); ++i) s += a.coeffs[i] * x[a.vars1[i].var_rep->index] * x[a.vars2[i].var_rep->index];
    return s)
// scaling
LAW(scale_aff, (AffExpr a, double c, const X& x), exprScale(a, c); return a.value(x), return c * a.value(x))
LAW(scale_quad, (QuadExpr a, double c, const X& x), exprScale(a, c); return a.value(x), return c * a.value(x))
LAW(mult_var_d, (const Var& a, double c, const X& x), return exprMult(a, c).value(x), return c * a.value(x))
LAW(mult_aff_d, (const AffExpr& a, double c, const X& x), return exprMult(a, c).value(x), return c * a.value(x))
LAW(mult_quad_d, (const QuadExpr& a, double c, const X& x), return exprMult(a, c).value(x), return c * a.value(x))
// in-place addition
#define INC(name, A, B, bv)                                                                                             \
  LAW(inc_##name, (A a, const B& b, const X& x), exprInc(a, b); return a.value(x), return a.value(x) + bv)               \
  LAW(dec_##name, (A a, const B& b, const X& x), exprDec(a, b); return a.value(x), return a.value(x) - bv)               \
  LAW(add_##name, (const A& a, const B& b, const X& x), return exprAdd(a, b).value(x), return a.value(x) + bv)           \
  LAW(sub_##name, (const A& a, const B& b, const X& x), return exprSub(a, b).value(x), return a.value(x) - bv)
INC(aff_d, AffExpr, double, b)
INC(aff_var, AffExpr, Var, b.value(x))
INC(aff_aff, AffExpr, AffExpr, b.value(x))
INC(quad_d, QuadExpr, double, b)
INC(quad_var, QuadExpr, Var, b.value(x))
INC(quad_aff, QuadExpr, AffExpr, b.value(x))
INC(quad_quad, QuadExpr, QuadExpr, b.value(x))
#define INCM(name, A, B)                                                                                                \
  LAW(incm_##name, (A a, B b, const X& x), exprInc(a, std::move(b)); return a.value(x), return a.value(x) + b.value(x))
INCM(aff_aff, AffExpr, AffExpr)
INCM(quad_aff, QuadExpr, AffExpr)
INCM(quad_quad, QuadExpr, QuadExpr)
LAW(decm_quad_aff, (QuadExpr a, AffExpr b, const X& x), exprDec(a, std::move(b)); return a.value(x), return a.value(x) - b.value(x))
// products
LAW(mult_aff_aff, (const AffExpr& a, const AffExpr& b, const X& x), return exprMult(a, b).value(x), return a.value(x) * b.value(x))
LAW(square_var, (const Var& a, const X& x), return exprSquare(a).value(x), return a.value(x) * a.value(x))
LAW(square_aff, (const AffExpr& a, const X& x), return exprSquare(a).value(x), return a.value(x) * a.value(x))
// dropping negligible terms
LAW(cleanup, (const AffExpr& a, const X& x), return cleanupAff(a).value(x), double s = a.constant;
    for (std::size_t i = 0; i < a.coeffs.size(); ++i) if (fabs(a.coeffs[i]) > 1e-7) s += a.coeffs[i] * a.vars[i].value(x);
    return s)
LAW(var_dot, (const Eigen::VectorXd& c, const VarVector& v, const X& x), return varDot(c, v).value(x), double s = 0;
    for (Eigen::Index i = 0; i < c.size(); ++i) s += c[i] * v[static_cast<std::size_t>(i)].value(x);
    return s)
}  // namespace spec
