ND = "trajopt_sco/src/num_diff.cpp"
MU = "trajopt_sco/src/modeling_utils.cpp"
F2 = """#include <trajopt_sco/num_diff.hpp>
#include <trajopt_sco/modeling_utils.hpp>
#include <trajopt_sco/expr_ops.hpp>
using namespace sco;
"""
exec(open("/verif/tool/seeds/sco1.py").read().split("SEEDS = [")[0])
SEEDS = [
    dict(id="jac-perturbation-kept-for-large", property="S08",
         edits=[(ND, """    const Eigen::VectorXd ypert = f(xpert);
    out.col(i) = (ypert - y) / epsilon;
    xpert(i) = x(i);""", """    const Eigen::VectorXd ypert = f(xpert);
    out.col(i) = (ypert - y) / epsilon;
    if (std::abs(x(i)) < 100.0)
      xpert(i) = x(i);""")],
         needs="a coordinate of magnitude at least 100 that is not the last, and a function that couples it with a later coordinate",
         breaks="the perturbation of a large coordinate stays in place while later columns of the Jacobian are evaluated",
         pre=F2, demo="""
int main()
{
  auto f = VectorOfVector::construct([](const Eigen::VectorXd& x) { Eigen::VectorXd o(2); o << x(0) * x(1), 3 * x(2); return o; });
  for (double a : {1.0, 250.0})
  {
    Eigen::VectorXd x(3);
    x << a, 2, 4;
    const Eigen::MatrixXd J = calcForwardNumJac(*f, x, 1.0);
    NEAR(J(0, 0), 2);
    NEAR(J(0, 1), a);
    NEAR(J(0, 2), 0);
    NEAR(J(1, 2), 3);
  }
  return bad;
}
"""),
    dict(id="diag-hess-forward-gradient", property="S08",
         edits=[(ND, """    grad(i) = (yplus - yminus) / epsilon;
    hess(i) = (yplus + yminus - 2 * y) / (epsilon * epsilon / 4);""", """    grad(i) = (yminus == 0.0) ? (yplus - y) / (epsilon / 2) : (yplus - yminus) / epsilon;
    hess(i) = (yplus + yminus - 2 * y) / (epsilon * epsilon / 4);""")],
         needs="a function that is exactly zero half a step below the point",
         breaks="the gradient falls back to a one-sided difference",
         pre=F2, demo="""
int main()
{
  auto f = ScalarOfVector::construct([](const Eigen::VectorXd& x) { return x(0) * x(0); });
  for (double a : {2.0, 0.5})
  {
    Eigen::VectorXd x(1), g, h;
    double y = 0;
    x << a;
    calcGradAndDiagHess(*f, x, 1.0, y, g, h);
    NEAR(y, a * a);
    NEAR(g(0), 2 * a);
    NEAR(h(0), 2);
  }
  return bad;
}
"""),
    dict(id="hinge-rows-only-when-active", property="S07",
         edits=[(MU, """      case HINGE:
      {
        exprScale(aff, weight);
        out->addHinge(aff, 1);
        break;""", """      case HINGE:
      {
        // far from its boundary the penalty is flat
        if (y[i] < -1.0)
          break;
        exprScale(aff, weight);
        out->addHinge(aff, 1);
        break;""")],
         needs="a hinge row that is inactive by more than one at the expansion point but becomes active within the trust region",
         breaks="the convex model of a hinge cost leaves out rows that are inactive at the expansion point",
         pre=PRE + F2, demo=MODEL + """
int main()
{
  FakeModel m; for (int i = 0; i < 2; ++i) m.addVar("v");
  auto f = VectorOfVector::construct([](const Eigen::VectorXd& x) { Eigen::VectorXd o(2); o << x(0), x(1) - 2; return o; });
  CostFromErrFunc c(f, m.vars, Eigen::VectorXd(), HINGE, "c");
  for (double a : {0.5, 1.5, -3.0})
  {
    auto o = c.convex(DblVec{ a, a }, &m);
    EXPECT(o->ineqs_.size() == 2);
  }
  return bad;
}
"""),
    dict(id="negative-curvature-mirrored", property="S07",
         edits=[(MU, "    hess = hess.cwiseMax(Eigen::VectorXd::Zero(hess.size()));", "    hess = hess.cwiseAbs();")],
         needs="a cost with negative curvature in some coordinate at the expansion point",
         breaks="negative curvature is mirrored instead of removed",
         pre=PRE + F2, demo=MODEL + """
int main()
{
  FakeModel m; for (int i = 0; i < 2; ++i) m.addVar("v");
  auto f = ScalarOfVector::construct([](const Eigen::VectorXd& x) { return x(0) * x(0) - 2 * x(1) * x(1); });
  CostFromFunc c(f, m.vars, "c");
  DblVec x{ 1, 2 };
  auto o = c.convex(x, &m);
  EXPECT(std::fabs(o->value(x) + 7) < 1e-3);
  // a straight line along the concave coordinate
  const double d1 = o->value(DblVec{ 1, 3 }) - o->value(DblVec{ 1, 2 }), d2 = o->value(DblVec{ 1, 4 }) - o->value(DblVec{ 1, 3 });
  EXPECT(std::fabs(d1 - d2) < 1e-2);
  return bad;
}
"""),
    dict(id="single-coefficient-ignored", property="S07",
         edits=[(MU, """  if (coeffs_.size() > 0)
    err.array() *= coeffs_.array();
  return trajopt_common::toDblVec(err);""", """  if (coeffs_.size() > 1)
    err.array() *= coeffs_.array();
  return trajopt_common::toDblVec(err);""")],
         needs="a constraint with exactly one row and a weight other than one",
         breaks="the exact value of a one-row constraint leaves out its weight while its convexification applies it",
         pre=PRE + F2, demo=MODEL + """
int main()
{
  FakeModel m; for (int i = 0; i < 2; ++i) m.addVar("v");
  auto f = VectorOfVector::construct([](const Eigen::VectorXd& x) { Eigen::VectorXd o(1); o << x(0) + x(1); return o; });
  ConstraintFromErrFunc c(f, m.vars, Eigen::VectorXd::Constant(1, 5.0), EQ, "c");
  DblVec x{ 1, 2 };
  NEAR(c.value(x)[0], 15);
  auto o = c.convex(x, &m);
  EXPECT(std::fabs(o->violation(x) - 15) < 1e-3);
  return bad;
}
"""),
]
