E = "trajopt_sco/src/expr_ops.cpp"
M = "trajopt_sco/src/modeling.cpp"
PRE = "#define private public\n#define protected public\n#include <trajopt_sco/modeling.hpp>\n#include <trajopt_sco/expr_ops.hpp>\n#include <trajopt_sco/solver_interface.hpp>\nusing namespace sco;\n"
MODEL = """
struct FakeModel : Model
{
  int nv = 0, nc = 0;
  struct Row { AffExpr e; bool eq; };
  std::vector<Row> rows;
  std::vector<int> removed_vars, removed_cnts;
  std::vector<std::pair<double, double>> bounds;
  VarVector vars; CntVector cnts;
  Var addVar(const std::string& n) override { vars.push_back(std::make_shared<VarRep>(nv++, n, this)); bounds.emplace_back(-INFINITY, INFINITY); return vars.back(); }
  Cnt addEqCnt(const AffExpr& e, const std::string&) override { rows.push_back({ e, true }); cnts.push_back(std::make_shared<CntRep>(nc++, this)); return cnts.back(); }
  Cnt addIneqCnt(const AffExpr& e, const std::string&) override { rows.push_back({ e, false }); cnts.push_back(std::make_shared<CntRep>(nc++, this)); return cnts.back(); }
  Cnt addIneqCnt(const QuadExpr&, const std::string&) override { cnts.push_back(std::make_shared<CntRep>(nc++, this)); return cnts.back(); }
  void removeVars(const VarVector& v) override { for (auto& x : v) removed_vars.push_back(x.var_rep->index); }
  void removeCnts(const CntVector& v) override { for (auto& x : v) removed_cnts.push_back(x.cnt_rep->index); }
  void update() override {}
  void setVarBounds(const VarVector& v, const DblVec& l, const DblVec& u) override { for (size_t i = 0; i < v.size(); ++i) bounds[v[i].var_rep->index] = { l[i], u[i] }; }
  DblVec getVarValues(const VarVector& v) const override { return DblVec(v.size(), 0); }
  CvxOptStatus optimize() override { return CVX_SOLVED; }
  void setObjective(const AffExpr&) override {}
  void setObjective(const QuadExpr&) override {}
  void writeToFile(const std::string&) const override {}
  VarVector getVars() const override { return vars; }
};
static AffExpr rnd(FakeModel& m, int n, unsigned s)
{
  std::srand(s);
  auto r = [] { return std::rand() % 19 - 9.0; };
  AffExpr a; a.constant = r();
  for (int i = 0; i < n; ++i) { a.coeffs.push_back(r()); a.vars.push_back(m.vars[std::rand() % m.vars.size()]); }
  return a;
}
"""
SEEDS = [
 dict(id="expr-square-offdiag", property="S01", edits=[(E, "    for (std::size_t j = i + 1; j < naff; ++j)\n    {\n      out.vars1.push_back(affexpr.vars[i]);\n      out.vars2.push_back(affexpr.vars[j]);\n      out.coeffs.push_back(2 * affexpr.coeffs[i] * affexpr.coeffs[j]);",
   "    for (std::size_t j = i + 1; j < naff; ++j)\n    {\n      if (affexpr.coeffs[i] == affexpr.coeffs[j] && i + 2 < j)\n        continue;\n      out.vars1.push_back(affexpr.vars[i]);\n      out.vars2.push_back(affexpr.vars[j]);\n      out.coeffs.push_back(2 * affexpr.coeffs[i] * affexpr.coeffs[j]);")],
   needs="an affine expression of at least four terms with two equal coefficients more than two apart", breaks="the square of an affine expression loses cross terms",
   pre=PRE, demo=MODEL + """
int main()
{
  FakeModel m; for (int i = 0; i < 6; ++i) m.addVar("v");
  DblVec x{ 1, -2, 3, 5, -7, 11 };
  AffExpr a; a.constant = 3; for (int i = 0; i < 6; ++i) { a.vars.push_back(m.vars[i]); a.coeffs.push_back(2); }
  NEAR(exprSquare(a).value(x), a.value(x) * a.value(x));
  return bad;
}
"""),
 dict(id="expr-mult-constant-swap", property="S01", edits=[(E, "    out.affexpr.coeffs[i + naff1] = affexpr1.constant * affexpr2.coeffs[i];", "    out.affexpr.coeffs[i + naff1] = (i < 3 ? affexpr1.constant : affexpr2.constant) * affexpr2.coeffs[i];")],
   needs="a product whose second factor has at least four terms", breaks="products of affine expressions use the wrong constant",
   pre=PRE, demo=MODEL + """
int main()
{
  FakeModel m; for (int i = 0; i < 6; ++i) m.addVar("v");
  DblVec x{ 1, -2, 3, 5, -7, 11 };
  for (unsigned s = 0; s < 40; ++s)
  {
    AffExpr a = rnd(m, s % 6, s), b = rnd(m, s / 6 % 6, s + 100);
    NEAR(exprMult(a, b).value(x), a.value(x) * b.value(x));
  }
  return bad;
}
"""),
 dict(id="hinge-second-use-weight", property="S02", edits=[(M, "  AffExpr const hinge_cost = exprMult(AffExpr(hinge), coeff);", "  AffExpr const hinge_cost = exprMult(AffExpr(hinge), vars_.size() > 1 ? std::fabs(coeff) + 1e-3 * coeff * coeff : coeff);")],
   needs="a second penalty term added to the same objective", breaks="the weight of every later hinge is distorted",
   pre=PRE, demo=MODEL + """
int main()
{
  FakeModel m; for (int i = 0; i < 3; ++i) m.addVar("v");
  ConvexObjective o(&m);
  o.addHinge(AffExpr(m.vars[0]), 2); o.addHinge(AffExpr(m.vars[1]), 5);
  DblVec x(m.vars.size(), 0); x[3] = 1; NEAR(o.value(x), 2); x[3] = 0; x[4] = 1; NEAR(o.value(x), 5);
  o.model_ = nullptr;
  return bad;
}
"""),
 dict(id="abs-terms-shared-slack", property="S02", edits=[(M, "  affeq.vars.push_back(neg);\n  affeq.vars.push_back(pos);\n", "  affeq.vars.push_back(vars_.front());\n  affeq.vars.push_back(pos);\n")],
   needs="an absolute-value term added to an objective that already has auxiliary variables", breaks="the second absolute-value row uses the slack of the first term",
   pre=PRE, demo=MODEL + """
int main()
{
  FakeModel m; for (int i = 0; i < 3; ++i) m.addVar("v");
  ConvexObjective o(&m);
  o.addAbs(AffExpr(m.vars[0]), 2); o.addAbs(AffExpr(m.vars[1]), 5);
  DblVec x(m.vars.size(), 0); x[1] = -4; x[5] = 4;
  NEAR(o.eqs_[1].value(x), 0);
  o.model_ = nullptr;
  return bad;
}
"""),
 dict(id="empty-row-not-recorded", property="S03", edits=[(M, """  for (const AffExpr& aff : ineqs_)
  {
    cnts_.push_back(model_->addIneqCnt(aff, ""));
  }
}

void ConvexObjective""", """  for (const AffExpr& aff : ineqs_)
  {
    cnts_.push_back(model_->addIneqCnt(aff, ""));
    if (aff.size() == 0)
      cnts_.pop_back();
  }
}

void ConvexObjective""")],
   needs="an inequality row without variables in a convex objective", breaks="the row is posted but not recorded, so it is never removed from the model",
   pre=PRE, demo=MODEL + """
int main()
{
  FakeModel m; for (int i = 0; i < 3; ++i) m.addVar("v");
  {
    ConvexObjective o(&m);
    o.ineqs_.push_back(AffExpr(2.0)); o.ineqs_.push_back(AffExpr(m.vars[0]));
    o.addConstraintsToModel();
    EXPECT(m.rows.size() == 2); EXPECT(!m.rows[0].eq && !m.rows[1].eq);
  }
  EXPECT(m.removed_cnts.size() == 2);
  return bad;
}
"""),
 dict(id="hinges-keep-only-last-var", property="S03", edits=[(M, "  vars_.reserve(vars_.size() + ev.size());\n  ineqs_.reserve(ineqs_.size() + ev.size());\n  for (const auto& i : ev)\n    addHinge(i, 1);",
   "  VarVector slacks;\n  slacks.reserve(ev.size());\n  ineqs_.reserve(ineqs_.size() + ev.size());\n  for (const auto& i : ev)\n  {\n    addHinge(i, 1);\n    slacks.push_back(vars_.back());\n    vars_.pop_back();\n  }\n  vars_.swap(slacks);")],
   needs="several hinges added as a group after another term of the same objective", breaks="auxiliary variables of earlier terms are forgotten and stay in the model for ever",
   pre=PRE, demo=MODEL + """
int main()
{
  FakeModel m; for (int i = 0; i < 3; ++i) m.addVar("v");
  {
    ConvexObjective o(&m);
    o.addAbs(AffExpr(m.vars[0]), 2); o.addHinges({ AffExpr(m.vars[1]), AffExpr(m.vars[2]) });
  }
  std::sort(m.removed_vars.begin(), m.removed_vars.end());
  EXPECT((m.removed_vars == std::vector<int>{ 3, 4, 5, 6 }));
  return bad;
}
"""),
 dict(id="constraints-removal-guard", property="S03", edits=[(M, "void ConvexConstraints::removeFromModel()\n{\n  model_->removeCnts(cnts_);", "void ConvexConstraints::removeFromModel()\n{\n  if (!cnts_.empty() && cnts_.size() == eqs_.size() + ineqs_.size())\n    model_->removeCnts(cnts_);")],
   needs="a row added to the convex constraints after they were posted", breaks="the posted rows stay in the model after the approximation is gone",
   pre=PRE, demo=MODEL + """
int main()
{
  FakeModel m; for (int i = 0; i < 3; ++i) m.addVar("v");
  {
    ConvexConstraints o(&m);
    o.addEqCnt(AffExpr(m.vars[0])); o.addIneqCnt(AffExpr(m.vars[1])); o.addConstraintsToModel(); o.addEqCnt(AffExpr(m.vars[2]));
  }
  EXPECT((m.removed_cnts == std::vector<int>{ 0, 1 }));
  return bad;
}
"""),
 dict(id="create-vars-bounds-prepend", property="S04", edits=[(M, "    lower_bounds_.push_back(lb[i]);\n", "    lower_bounds_.insert(lower_bounds_.begin() + static_cast<long int>(n_cur), lb[i]);\n")],
   needs="a batch of variables with different lower bounds", breaks="lower bounds of one batch are stored in reverse order",
   pre=PRE, demo="""
int main()
{
  OptProb p(ModelType::BPMPD);
  p.createVariables({ "a", "b" }, { -1, -2 }, { 5, 6 });
  p.createVariables({ "c", "d", "e" }, { -3, -4, -5 }, { 7, 8, 9 });
  EXPECT((p.getLowerBounds() == DblVec{ -1, -2, -3, -4, -5 })); EXPECT((p.getUpperBounds() == DblVec{ 5, 6, 7, 8, 9 }));
  return bad;
}
"""),
 dict(id="partial-upper-bounds-alias", property="S04", edits=[(M, "void OptProb::setUpperBounds(const DblVec& ub, const VarVector& vars) { setVec(upper_bounds_, vars, ub); }",
   "void OptProb::setUpperBounds(const DblVec& ub, const VarVector& vars)\n{\n  for (std::size_t i = 0; i < vars.size(); ++i)\n    upper_bounds_[vars.size() == vars_.size() ? i : static_cast<std::size_t>(vars[i].var_rep->index)] = ub[i];\n}")],
   needs="upper bounds set for all variables at once, listed in another order", breaks="the bounds go to the wrong variables",
   pre=PRE, demo="""
int main()
{
  OptProb p(ModelType::BPMPD);
  VarVector v = p.createVariables({ "a", "b", "c" }, { 0, 0, 0 }, { 9, 9, 9 });
  p.setUpperBounds({ 1, 2 }, { v[2], v[0] }); EXPECT((p.getUpperBounds() == DblVec{ 2, 9, 1 }));
  p.setUpperBounds({ 1, 2, 3 }, { v[2], v[0], v[1] }); EXPECT((p.getUpperBounds() == DblVec{ 2, 3, 1 }));
  return bad;
}
"""),
 dict(id="central-point-one-sided", property="S05", edits=[(M, "    center[i] = (lower_bounds_[i] + upper_bounds_[i]) / 2;", "    center[i] = lower_bounds_[i] < 0 && upper_bounds_[i] > 0 ? 0.5 * (upper_bounds_[i] + lower_bounds_[i]) : (upper_bounds_[i] - lower_bounds_[i]) / 2;")],
   needs="a variable whose bounds have the same sign", breaks="the central feasible point is not the middle of the bounds",
   pre=PRE, demo="""
int main()
{
  OptProb p(ModelType::BPMPD);
  p.createVariables({ "a", "b", "c" }, { -1, 4, -8 }, { 3, 6, -2 });
  DblVec c = p.getCentralFeasiblePoint({ 0, 0, 0 });
  NEAR(c[0], 1); NEAR(c[1], 5); NEAR(c[2], -5);
  return bad;
}
"""),
 dict(id="closest-qp-target", property="S05", edits=[(M, "    exprInc(obj, exprSquare(exprSub(AffExpr(vars_[i]), x[i])));", "    exprInc(obj, exprSquare(exprSub(AffExpr(vars_[i]), i < 2 ? x[i] : x[i] * (x[i] < upper_bounds_[i] ? 1 : 2))));")],
   needs="the QP variant with a third coordinate above its upper bound", breaks="the target of the projection is moved",
   pre=PRE, demo="""
struct Rec : BasicCfg {};
""".replace("struct Rec : BasicCfg {};\n", "") + MODEL + """
struct Rec : FakeModel { QuadExpr q; using FakeModel::setObjective; void setObjective(const QuadExpr& e) override { q = e; } };
int main()
{
  OptProb p(ModelType::BPMPD);
  auto m = std::make_shared<Rec>(); p.model_ = m;
  p.createVariables({ "a", "b", "c" }, { 0, 0, 0 }, { 1, 1, 1 });
  p.getClosestFeasiblePointQP({ 2, 2, 3 });
  NEAR(m->q.value(DblVec{ 2, 2, 3 }), 0);
  return bad;
}
"""),
 dict(id="convex-violation-margin", property="S06", edits=[(M, "    out.push_back(pospart(aff.value(x.data())));", "    out.push_back(pospart(aff.value(x.data()) - (eqs_.empty() ? 0 : 1e-4)));")],
   needs="a convex approximation that has both equality and inequality rows", breaks="small violations of inequality rows are not counted",
   pre=PRE, demo=MODEL + """
int main()
{
  FakeModel m; m.addVar("v");
  ConvexConstraints c(&m); c.addEqCnt(AffExpr(m.vars[0])); c.addIneqCnt(AffExpr(m.vars[0]));
  NEAR(c.violations({ 5e-5 })[1], 5e-5); NEAR(c.violation({ 5e-5 }) , 1e-4); EXPECT(c.violations({ 5e-5 })[1] > 4e-5);
  c.model_ = nullptr;
  return bad;
}
"""),
 dict(id="ineq-violation-only-first-sign", property="S06", edits=[(M, "      out[i] = pospart(val[i]);", "      out[i] = pospart(val[i] * (i > 0 && val[0] < 0 ? val[i] : 1));")],
   needs="an inequality constraint of several rows whose first row is satisfied", breaks="later rows report the square of their violation, and violated sign of satisfied rows",
   pre=PRE, demo="""
struct C : IneqConstraint
{
  C() : IneqConstraint("c") {}
  DblVec value(const DblVec& x) override { return x; }
  ConvexConstraints::Ptr convex(const DblVec&, Model*) override { return nullptr; }
  VarVector getVars() override { return {}; }
};
int main()
{
  C c; DblVec v = c.violations({ -1, -3, 2 });
  NEAR(v[0], 0); NEAR(v[1], 0); NEAR(v[2], 2); NEAR(c.violation({ -1, -3, 2 }), 2);
  return bad;
}
"""),
]
