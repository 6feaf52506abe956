// Reference meaning of the quadratic program that TrajOptQPProblem builds
#include <bits/stdc++.h>
#include <Eigen/Dense>
#include <Eigen/Sparse>
#define private public
#define protected public
#include "trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp"
namespace spec
{
using namespace trajopt_sqp;
using V = Eigen::VectorXd;
using M = Eigen::MatrixXd;
using P = TrajOptQPProblem::Implementation;
using trajopt_ifopt::BoundsType;
#define LAWP(ret, name, params, pre, lhs, ...)                                                                          \
  ret lhs_##name params { if (!(pre)) throw 0; lhs; }                                                                   \
  ret rhs_##name params { if (!(pre)) throw 0; __VA_ARGS__; }
// the tables that update() leaves behind for the terms of the problem; nothing is dynamic
#define WF (p.initialized && !p.has_dyn_component && p.cvp.constraint_term_infos.size() == p.constraint_terms.size() && p.cvp.n_nlp_vars > 0)
#define NOOBJ (WF && p.objective_terms.empty() && p.cvp.n_objective_terms == 0)
inline long rows(const P& p, long i) { return p.cvp.constraint_term_infos[i].get().rows; }
inline long start(const P& p, long i)
{
  long s = 0;
  for (long t = 0; t < i; ++t) s += rows(p, t);
  return s;
}
inline void prepare(P& p)
{
  long a = 0, b = 0;
  for (std::size_t t = 0; t < p.constraint_terms.size(); ++t)
    if (p.cvp.constraint_term_infos[t].get().type == ComponentInfoType::kMeritConstraint) b += rows(p, t); else a += rows(p, t);
  p.cvp.n_penalty_constraints = a;
  p.cvp.n_merit_constraints = b;
  p.cvp.n_constraint_terms = a + b;
  p.cvp.constraint_constant.setZero(a + b);
  p.cvp.bounds_lower.resize(p.cvp.n_nlp_vars + a + b);
  p.cvp.bounds_upper.resize(p.cvp.n_nlp_vars + a + b);
}
// range and open rows have no slack encoding: they are rejected
inline void reject(const P& p)
{
  for (std::size_t t = 0; t < p.constraint_terms.size(); ++t)
    for (long r = 0; r < rows(p, t); ++r)
    {
      const BoundsType b = p.cvp.constraint_term_infos[t].get().bounds[r].getType();
      if (b != BoundsType::kEquality && b != BoundsType::kLowerBound && b != BoundsType::kUpperBound) throw std::runtime_error("");
    }
}
inline long slacks(const P& p, long i, long k) { return p.cvp.constraint_term_infos[i].get().bounds[k].getType() == BoundsType::kEquality ? 2 : 1; }
// column of the first slack variable of row k of term i
inline long slack(const P& p, long i, long k)
{
  long s = p.cvp.n_nlp_vars;
  for (long t = 0; t < i; ++t)
    for (long r = 0; r < rows(p, t); ++r) s += slacks(p, t, r);
  for (long r = 0; r < k; ++r) s += slacks(p, i, r);
  return s;
}
inline long allslacks(const P& p)
{
  long s = 0;
  for (std::size_t t = 0; t < p.constraint_terms.size(); ++t)
    for (long r = 0; r < rows(p, t); ++r) s += slacks(p, t, r);
  return s;
}
inline double constant(const P& p, long i, long k)
{
  const V x = p.variables->getValues();
  double c = p.constraint_terms[i]->getValues()[k];
  for (long j = 0; j < p.cvp.n_nlp_vars; ++j) c -= M(p.constraint_terms[i]->getJacobian())(k, j) * x[j];
  return c;
}
// the weight of a row: its own coefficient, and for a constraint the merit coefficient of that constraint
inline double weight(const P& p, long i, long k)
{
  double w = p.cvp.constraint_term_infos[i].get().coeffs[k];
  if (p.cvp.constraint_term_infos[i].get().type != ComponentInfoType::kMeritConstraint) return w;
  long m = 0;
  for (long t = 0; t < i; ++t)
    if (p.cvp.constraint_term_infos[t].get().type == ComponentInfoType::kMeritConstraint) ++m;
  return p.constraint_merit_coeff[m] * w;
}
#define ROW (NOOBJ && i >= 0 && i < (long)p.constraint_terms.size() && k >= 0 && k < rows(p, i))
#define EQ(i, k) (p.cvp.constraint_term_infos[i].get().bounds[k].getType() == BoundsType::kEquality)
#define OTHER (t >= 0 && t < (long)p.constraint_terms.size() && r >= 0 && r < rows(p, t) && (t != i || r != k))
LAWP(double, Q02_row_jacobian, (P& p, long i, long k, long j), ROW && j >= 0 && j < p.cvp.n_nlp_vars, prepare(p); p.convexify(); return M(p.cvp.constraint_matrix)(start(p, i) + k, j),
     const double v = M(p.constraint_terms[i]->getJacobian())(k, j); return std::abs(v) < 1e-7 ? 0.0 : v)
// the slack variables of a row relax it: an equality from both sides, a lower bound from below, an upper bound from above; no other slack enters the row
LAWP(double, Q02_slack_first, (P& p, long i, long k), ROW, prepare(p); p.convexify(); return M(p.cvp.constraint_matrix)(start(p, i) + k, slack(p, i, k)),
     return p.cvp.constraint_term_infos[i].get().bounds[k].getType() == BoundsType::kUpperBound ? -1.0 : 1.0)
LAWP(double, Q02_slack_second, (P& p, long i, long k), ROW && EQ(i, k), prepare(p); p.convexify(); return M(p.cvp.constraint_matrix)(start(p, i) + k, slack(p, i, k) + 1), return -1.0)
LAWP(double, Q02_slack_foreign, (P& p, long i, long k, long t, long r), ROW && OTHER, prepare(p); p.convexify(); return M(p.cvp.constraint_matrix)(start(p, i) + k, slack(p, t, r)), return 0.0)
LAWP(double, Q02_slack_foreign_second, (P& p, long i, long k, long t, long r), ROW && OTHER && EQ(t, r), prepare(p); p.convexify(); return M(p.cvp.constraint_matrix)(start(p, i) + k, slack(p, t, r) + 1), return 0.0)
LAWP(double, Q02_row_lower, (P& p, long i, long k), ROW, prepare(p); p.convexify(); return p.cvp.bounds_lower[start(p, i) + k],
     return p.cvp.constraint_term_infos[i].get().bounds[k].getLower() - constant(p, i, k))
LAWP(double, Q02_row_upper, (P& p, long i, long k), ROW, prepare(p); p.convexify(); return p.cvp.bounds_upper[start(p, i) + k],
     return p.cvp.constraint_term_infos[i].get().bounds[k].getUpper() - constant(p, i, k))
LAWP(double, Q02_row_constant, (P& p, long i, long k), ROW, prepare(p); p.convexify(); return p.cvp.constraint_constant[start(p, i) + k], return constant(p, i, k))
LAWP(double, Q02_slack_weight, (P& p, long i, long k), ROW, prepare(p); p.convexify(); return p.cvp.gradient[slack(p, i, k)], return weight(p, i, k))
LAWP(double, Q02_slack_weight_second, (P& p, long i, long k), ROW && p.cvp.constraint_term_infos[i].get().bounds[k].getType() == BoundsType::kEquality, prepare(p); p.convexify(); return p.cvp.gradient[slack(p, i, k) + 1], return weight(p, i, k))
LAWP(double, Q02_slack_lower, (P& p, long c), NOOBJ && c >= 0 && c < allslacks(p), prepare(p); p.convexify(); return p.cvp.bounds_lower[start(p, p.constraint_terms.size()) + p.cvp.n_nlp_vars + c], return 0.0)
LAWP(double, Q02_slack_upper, (P& p, long c), NOOBJ && c >= 0 && c < allslacks(p), prepare(p); p.convexify(); return p.cvp.bounds_upper[start(p, p.constraint_terms.size()) + p.cvp.n_nlp_vars + c], return (double)INFINITY)
// every variable of the program, slack or not, has its own bound row below those of the terms
LAWP(double, Q02_bound_rows, (P& p, long r, long c), NOOBJ && r >= 0 && c >= 0 && r < p.cvp.n_nlp_vars + allslacks(p) && c < p.cvp.n_nlp_vars + allslacks(p), prepare(p); p.convexify(); return M(p.cvp.constraint_matrix)(start(p, p.constraint_terms.size()) + r, c), return r == c ? 1.0 : 0.0)
LAWP(double, Q02_variable_lower, (P& p, long j), NOOBJ && j >= 0 && j < p.cvp.n_nlp_vars && p.var_bounds_lower[j] <= p.var_bounds_upper[j], prepare(p); p.convexify(); return p.cvp.bounds_lower[start(p, p.constraint_terms.size()) + j],
     const double x = std::min(std::max(p.variables->getValues()[j], p.var_bounds_lower[j]), p.var_bounds_upper[j]); return std::max(x - p.box_size[j], p.var_bounds_lower[j]))
LAWP(double, Q02_variable_upper, (P& p, long j), NOOBJ && j >= 0 && j < p.cvp.n_nlp_vars && p.var_bounds_lower[j] <= p.var_bounds_upper[j], prepare(p); p.convexify(); return p.cvp.bounds_upper[start(p, p.constraint_terms.size()) + j],
     const double x = std::min(std::max(p.variables->getValues()[j], p.var_bounds_lower[j]), p.var_bounds_upper[j]); return std::min(x + p.box_size[j], p.var_bounds_upper[j]))
LAWP(long, Q02_variables, (P& p), NOOBJ, prepare(p); p.convexify(); return p.cvp.num_qp_vars, return p.cvp.n_nlp_vars + allslacks(p))
LAWP(long, Q02_rows, (P& p), NOOBJ, prepare(p); p.convexify(); return p.cvp.num_qp_cnts, return start(p, p.constraint_terms.size()) + p.cvp.n_nlp_vars + allslacks(p))
LAWP(long, Q02_gradient_size, (P& p), NOOBJ, prepare(p); p.convexify(); return p.cvp.gradient.size(), return p.cvp.n_nlp_vars + allslacks(p))
LAWP(long, Q02_hessian_size, (P& p), NOOBJ, prepare(p); p.convexify(); return p.cvp.hessian.rows(), return p.cvp.n_nlp_vars + allslacks(p))
LAWP(long, Q02_matrix_rows, (P& p), NOOBJ, prepare(p); p.convexify(); return p.cvp.constraint_matrix.rows(), return start(p, p.constraint_terms.size()) + p.cvp.n_nlp_vars + allslacks(p))
LAWP(long, Q02_matrix_cols, (P& p), NOOBJ, prepare(p); p.convexify(); return p.cvp.constraint_matrix.cols(), return p.cvp.n_nlp_vars + allslacks(p))
LAWP(long, Q02_lower_size, (P& p), NOOBJ, prepare(p); p.convexify(); return p.cvp.bounds_lower.size(), return start(p, p.constraint_terms.size()) + p.cvp.n_nlp_vars + allslacks(p))
LAWP(long, Q02_upper_size, (P& p), NOOBJ, prepare(p); p.convexify(); return p.cvp.bounds_upper.size(), return start(p, p.constraint_terms.size()) + p.cvp.n_nlp_vars + allslacks(p))
// setup: the tables are those of the registered terms, in the order costs by kind, then constraints, static before dynamic
using L = std::vector<trajopt_ifopt::Differentiable::Ptr>;
inline void join(L& a, const L& b) { for (const auto& x : b) a.push_back(x); }
LAWP(L, Q03_objectives, (P& p), true, p.setup(); return p.objective_terms, p.setup(); L l; join(l, p.squared_costs); join(l, p.dyn_squared_costs); return l)
LAWP(L, Q03_penalties, (P& p), true, p.setup(); return p.penalty_constraints, p.setup(); L l; join(l, p.hinge_costs); join(l, p.dyn_hinge_costs); join(l, p.abs_costs); join(l, p.dyn_abs_costs); return l)
LAWP(L, Q03_merits, (P& p), true, p.setup(); return p.merit_constraints, p.setup(); L l; join(l, p.constraints); join(l, p.dyn_constraint); return l)
LAWP(L, Q03_terms, (P& p), true, p.setup(); return p.constraint_terms, p.setup(); L l; join(l, p.penalty_constraints); join(l, p.merit_constraints); return l)
LAWP(L, Q03_all, (P& p), true, p.setup(); return p.all_components, p.setup(); L l; join(l, p.objective_terms); join(l, p.constraint_terms); return l)
LAWP(std::vector<std::string>, Q03_cost_names, (P& p), true, p.setup(); return p.cost_names, p.setup(); std::vector<std::string> n; for (const auto& c : p.objective_terms) n.push_back(c->getName()); for (const auto& c : p.penalty_constraints) n.push_back(c->getName()); return n)
LAWP(std::vector<std::string>, Q03_names, (P& p), true, p.setup(); return p.constraint_names, p.setup(); std::vector<std::string> n; for (const auto& c : p.merit_constraints) n.push_back(c->getName()); return n)
LAWP(long, Q03_objective_infos, (P& p), true, p.setup(); return (long)p.cvp.objective_term_infos.size(), p.setup(); return (long)p.objective_terms.size())
LAWP(long, Q03_penalty_infos, (P& p), true, p.setup(); return (long)p.cvp.penalty_constraint_infos.size(), p.setup(); return (long)p.penalty_constraints.size())
LAWP(long, Q03_merit_infos, (P& p), true, p.setup(); return (long)p.cvp.merit_constraint_infos.size(), p.setup(); return (long)p.merit_constraints.size())
LAWP(long, Q03_term_infos, (P& p), true, p.setup(); return (long)p.cvp.constraint_term_infos.size(), p.setup(); return (long)p.constraint_terms.size())
LAWP(long, Q03_costs, (P& p), true, p.setup(); return p.num_cost_components, p.setup(); return (long)(p.objective_terms.size() + p.penalty_constraints.size()))
LAWP(long, Q03_constraints, (P& p), true, p.setup(); return p.num_cnt_components, p.setup(); return (long)p.merit_constraints.size())
LAWP(double, Q03_merit, (P& p, long i), i >= 0, p.setup(); if (i >= (long)p.merit_constraints.size()) throw 0; return p.constraint_merit_coeff[i], p.setup(); if (i >= (long)p.merit_constraints.size()) throw 0; return 10.0)
LAWP(long, Q03_merit_size, (P& p), true, p.setup(); return p.constraint_merit_coeff.size(), p.setup(); return (long)p.merit_constraints.size())
LAWP(bool, Q03_initialized, (P& p), true, p.setup(); return p.initialized, p.setup(); return true)
LAWP(long, Q03_variables, (P& p), true, p.setup(); return p.cvp.n_nlp_vars, p.setup(); return p.variables->getRows())
LAWP(double, Q03_box, (P& p, long j), j >= 0, p.setup(); if (j >= p.cvp.n_nlp_vars) throw 0; return p.box_size[j], p.setup(); if (j >= p.cvp.n_nlp_vars) throw 0; return 0.1)
LAWP(double, Q03_bounds_lower, (P& p, long j), j >= 0, p.setup(); if (j >= p.cvp.n_nlp_vars) throw 0; return p.var_bounds_lower[j], p.setup(); if (j >= p.cvp.n_nlp_vars) throw 0; return p.variables->getBounds()[j].getLower())
LAWP(double, Q03_bounds_upper, (P& p, long j), j >= 0, p.setup(); if (j >= p.cvp.n_nlp_vars) throw 0; return p.var_bounds_upper[j], p.setup(); if (j >= p.cvp.n_nlp_vars) throw 0; return p.variables->getBounds()[j].getUpper())
#define EACH(name, infos, terms)                                                                                        \
  LAWP(long, Q03_##name##_rows, (P& p, long i), i >= 0, p.setup(); if (i >= (long)p.terms.size()) throw 0; return p.cvp.infos[i].rows, p.setup(); if (i >= (long)p.terms.size()) throw 0; return p.terms[i]->getRows()) \
  LAWP(V, Q03_##name##_coeffs, (P& p, long i), i >= 0, p.setup(); if (i >= (long)p.terms.size()) throw 0; return p.cvp.infos[i].coeffs, p.setup(); if (i >= (long)p.terms.size()) throw 0; return p.terms[i]->getCoefficients()) \
  LAWP(std::vector<trajopt_ifopt::Bounds>, Q03_##name##_bounds, (P& p, long i), i >= 0, p.setup(); if (i >= (long)p.terms.size()) throw 0; return p.cvp.infos[i].bounds, p.setup(); if (i >= (long)p.terms.size()) throw 0; return p.terms[i]->getBounds())
EACH(objective, objective_term_infos, objective_terms)
EACH(penalty, penalty_constraint_infos, penalty_constraints)
EACH(merit, merit_constraint_infos, merit_constraints)
LAWP(ComponentInfoType, Q03_objective_type, (P& p, long i), i >= 0, p.setup(); if (i >= (long)p.objective_terms.size()) throw 0; return p.cvp.objective_term_infos[i].type, return ComponentInfoType::kObjectiveSquared)
LAWP(ComponentInfoType, Q03_penalty_type, (P& p, long i), i >= 0, p.setup(); if (i >= (long)p.penalty_constraints.size()) throw 0; return p.cvp.penalty_constraint_infos[i].type, p.setup(); if (i >= (long)p.penalty_constraints.size()) throw 0; return i < (long)(p.hinge_costs.size() + p.dyn_hinge_costs.size()) ? ComponentInfoType::kPenaltyHinge : ComponentInfoType::kPenaltyAbsolute)
LAWP(ComponentInfoType, Q03_merit_type, (P& p, long i), i >= 0, p.setup(); if (i >= (long)p.merit_constraints.size()) throw 0; return p.cvp.merit_constraint_infos[i].type, return ComponentInfoType::kMeritConstraint)
// update: the counts are those of the terms
inline long total(const L& l) { long s = 0; for (const auto& c : l) s += c->getRows(); return s; }
LAWP(long, Q03_objective_count, (P& p), true, p.setup(); return p.cvp.n_objective_terms, p.setup(); return total(p.objective_terms))
LAWP(long, Q03_penalty_count, (P& p), true, p.setup(); return p.cvp.n_penalty_constraints, p.setup(); return total(p.penalty_constraints))
LAWP(long, Q03_merit_count, (P& p), true, p.setup(); return p.cvp.n_merit_constraints, p.setup(); return total(p.merit_constraints))
LAWP(long, Q03_term_count, (P& p), true, p.setup(); return p.cvp.n_constraint_terms, p.setup(); return p.cvp.n_penalty_constraints + p.cvp.n_merit_constraints)
LAWP(long, Q03_constant_size, (P& p), true, p.setup(); return p.cvp.constraint_constant.size(), p.setup(); return p.cvp.n_constraint_terms)
LAWP(long, Q03_target_size, (P& p), true, p.setup(); return p.cvp.squared_objective_target.size(), p.setup(); return p.cvp.n_objective_terms)
// the bounds of the variables: the box around the point
#define BOX (p.cvp.n_nlp_vars > 0 && p.var_bounds_lower.size() == p.cvp.n_nlp_vars && p.var_bounds_upper.size() == p.cvp.n_nlp_vars && p.box_size.size() == p.cvp.n_nlp_vars && p.cvp.n_constraint_terms >= 0 && \
  p.cvp.n_constraint_terms == p.cvp.n_penalty_constraints + p.cvp.n_merit_constraints && p.cvp.bounds_lower.size() >= p.cvp.n_constraint_terms + p.cvp.n_nlp_vars && p.cvp.bounds_upper.size() == p.cvp.bounds_lower.size() && \
  j >= 0 && j < p.cvp.n_nlp_vars && p.var_bounds_lower[j] <= p.var_bounds_upper[j])
#define LOWER(x, s) std::max(std::min(std::max(x, p.var_bounds_lower[j]), p.var_bounds_upper[j]) - s, p.var_bounds_lower[j])
#define UPPER(x, s) std::min(std::min(std::max(x, p.var_bounds_lower[j]), p.var_bounds_upper[j]) + s, p.var_bounds_upper[j])
LAWP(double, Q07_lower, (P& p, const V& x, long j), BOX && x.size() == p.cvp.n_nlp_vars, p.updateNLPVariableBounds(x); return p.cvp.bounds_lower[p.cvp.n_constraint_terms + j], return LOWER(x[j], p.box_size[j]))
LAWP(double, Q07_upper, (P& p, const V& x, long j), BOX && x.size() == p.cvp.n_nlp_vars, p.updateNLPVariableBounds(x); return p.cvp.bounds_upper[p.cvp.n_constraint_terms + j], return UPPER(x[j], p.box_size[j]))
LAWP(double, Q07_set_lower, (P& p, const V& s, long j), BOX && s.size() == p.cvp.n_nlp_vars, p.setBoxSize(s); return p.cvp.bounds_lower[p.cvp.n_constraint_terms + j], return LOWER(p.variables->getValues()[j], s[j]))
LAWP(double, Q07_set_upper, (P& p, const V& s, long j), BOX && s.size() == p.cvp.n_nlp_vars, p.setBoxSize(s); return p.cvp.bounds_upper[p.cvp.n_constraint_terms + j], return UPPER(p.variables->getValues()[j], s[j]))
LAWP(double, Q07_set_box, (P& p, const V& s, long j), BOX && s.size() == p.cvp.n_nlp_vars, p.setBoxSize(s); return p.box_size[j], return s[j])
LAWP(double, Q07_scale_lower, (P& p, double f, long j), BOX, p.scaleBoxSize(f); return p.cvp.bounds_lower[p.cvp.n_constraint_terms + j], return LOWER(p.variables->getValues()[j], p.box_size[j] * f))
LAWP(double, Q07_scale_upper, (P& p, double f, long j), BOX, p.scaleBoxSize(f); return p.cvp.bounds_upper[p.cvp.n_constraint_terms + j], return UPPER(p.variables->getValues()[j], p.box_size[j] * f))
LAWP(double, Q07_scale_box, (P& p, double f, long j), BOX, p.scaleBoxSize(f); return p.box_size[j], return p.box_size[j] * f)
LAWP(double, Q07_others_lower, (P& p, const V& x, long j, long r), BOX && x.size() == p.cvp.n_nlp_vars && r >= 0 && r < p.cvp.bounds_lower.size() && (r < p.cvp.n_constraint_terms || r >= p.cvp.n_constraint_terms + p.cvp.n_nlp_vars), p.updateNLPVariableBounds(x); return p.cvp.bounds_lower[r], return p.cvp.bounds_lower[r])
LAWP(double, Q07_others_upper, (P& p, const V& x, long j, long r), BOX && x.size() == p.cvp.n_nlp_vars && r >= 0 && r < p.cvp.bounds_lower.size() && (r < p.cvp.n_constraint_terms || r >= p.cvp.n_constraint_terms + p.cvp.n_nlp_vars), p.updateNLPVariableBounds(x); return p.cvp.bounds_upper[r], return p.cvp.bounds_upper[r])
// ---------------------------------------------------------------------------------------------- Q08
inline double viol(double x, const trajopt_ifopt::Bounds& b) { return std::max(b.getLower() - x, 0.0) + std::max(x - b.getUpper(), 0.0); }
inline double violation(const trajopt_ifopt::Differentiable& c)
{
  double s = 0;
  const V v = c.getValues();
  for (long k = 0; k < c.getRows(); ++k) s += viol(v[k], c.getBounds()[k]);
  return s;
}
#define TABLES (p.initialized && p.cvp.n_nlp_vars > 0 && p.num_cost_components == (long)(p.objective_terms.size() + p.penalty_constraints.size()) && p.cvp.objective_term_infos.size() == p.objective_terms.size() && \
  p.cvp.penalty_constraint_infos.size() == p.penalty_constraints.size() && p.cvp.merit_constraint_infos.size() == p.merit_constraints.size())
LAWP(double, Q08_exact_squared, (const P& p, long i), TABLES && i >= 0 && i < (long)p.objective_terms.size(), return p.getExactCosts()[i],
     const auto& c = *p.objective_terms[i]; double s = 0; const V v = c.getValues(); for (long k = 0; k < c.getRows(); ++k) { const double e = viol(v[k], c.getBounds()[k]); s += e * e * c.getCoefficients()[k]; } return s)
LAWP(double, Q08_exact_penalty, (const P& p, long i), TABLES && i >= 0 && i < (long)p.penalty_constraints.size(), return p.getExactCosts()[p.objective_terms.size() + i],
     const auto& c = *p.penalty_constraints[i]; double s = 0; const V v = c.getValues(); for (long k = 0; k < c.getRows(); ++k) s += viol(v[k], c.getBounds()[k]) * c.getCoefficients()[k]; return s)
LAWP(double, Q08_exact_violation, (const P& p, long i), TABLES && i >= 0 && i < (long)p.merit_constraints.size(), return p.getExactConstraintViolations()[i], return violation(*p.merit_constraints[i]))
LAWP(long, Q08_exact_costs, (const P& p), TABLES, return p.getExactCosts().size(), return (long)(p.objective_terms.size() + p.penalty_constraints.size()))
LAWP(long, Q08_exact_violations, (const P& p), TABLES, return p.getExactConstraintViolations().size(), return (long)p.merit_constraints.size())
LAWP(double, Q08_exact_total, (const P& p), TABLES, return p.getTotalExactCost(), const V g = p.getExactCosts(); double s = 0; for (long k = 0; k < g.size(); ++k) s += g[k]; return s)
using C = ConvexProblem;
inline long terms(const std::vector<ComponentInfo>& l, long n) { long s = 0; for (long t = 0; t < n; ++t) s += l[t].rows; return s; }
// the linear model of a row of the constraint matrix in the variables of the nonlinear problem
inline double model(const C& c, long r, const V& x) { double v = c.constraint_constant[r]; for (long j = 0; j < c.n_nlp_vars; ++j) v += M(c.constraint_matrix)(r, j) * x[j]; return v; }
#define CVP (c.n_nlp_vars > 0 && c.n_objective_terms == terms(c.objective_term_infos, c.objective_term_infos.size()) && c.n_penalty_constraints == terms(c.penalty_constraint_infos, c.penalty_constraint_infos.size()) && \
  c.n_merit_constraints == terms(c.merit_constraint_infos, c.merit_constraint_infos.size()) && c.constraint_constant.size() == c.n_penalty_constraints + c.n_merit_constraints && \
  c.constraint_matrix.cols() == x.size() && c.constraint_matrix.rows() == c.n_penalty_constraints + c.n_merit_constraints + x.size() && x.size() >= c.n_nlp_vars)
LAWP(double, Q08_convex_penalty, (const C& c, const V& x, long i), CVP && c.objective_term_infos.empty() && i >= 0 && i < (long)c.penalty_constraint_infos.size(), return c.evaluateConvexCosts(x)[i],
     double s = 0; const auto& t = c.penalty_constraint_infos[i]; const long b = terms(c.penalty_constraint_infos, i); for (long k = 0; k < t.rows; ++k) s += viol(model(c, b + k, x), t.bounds[k]) * t.coeffs[k]; return s)
LAWP(double, Q08_convex_violation, (const C& c, const V& x, long i), CVP && i >= 0 && i < (long)c.merit_constraint_infos.size(), return c.evaluateConvexConstraintViolations(x)[i],
     double s = 0; const auto& t = c.merit_constraint_infos[i]; const long b = c.n_penalty_constraints + terms(c.merit_constraint_infos, i); for (long k = 0; k < t.rows; ++k) s += viol(model(c, b + k, x), t.bounds[k]); return s)
LAWP(long, Q08_convex_costs, (const C& c, const V& x), CVP, return c.evaluateConvexCosts(x).size(), return (long)(c.objective_term_infos.size() + c.penalty_constraint_infos.size()))
LAWP(long, Q08_convex_violations, (const C& c, const V& x), CVP, return c.evaluateConvexConstraintViolations(x).size(), return (long)c.merit_constraint_infos.size())
// a squared cost: the sum of the models of its rows
#define EXPR (c.squared_objective_nlp.constants.size() == c.n_objective_terms && c.squared_objective_nlp.linear_coeffs.rows() == c.n_objective_terms && c.squared_objective_nlp.linear_coeffs.cols() == c.n_nlp_vars)
LAWP(double, Q08_convex_squared, (const C& c, const V& x, long i), CVP && EXPR && i >= 0 && i < (long)c.objective_term_infos.size(), return c.evaluateConvexCosts(x)[i],
     V o(c.n_objective_terms); c.squared_objective_nlp.values(o, x.head(c.n_nlp_vars)); double s = 0; const long b = terms(c.objective_term_infos, i); for (long k = 0; k < c.objective_term_infos[i].rows; ++k) s += o[b + k]; return s)
}
