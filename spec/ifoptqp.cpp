// Reference meaning of the quadratic program that IfoptQPProblem builds
#include <bits/stdc++.h>
#define private public
#define protected public
#include <trajopt_sqp/ifopt_qp_problem.h>
#include <trajopt_ifopt/core/problem.h>
#include <trajopt_ifopt/core/constraint_set.h>
#include <trajopt_ifopt/utils/ifopt_utils.h>
namespace spec
{
using namespace trajopt_sqp;
using V = Eigen::VectorXd;
using M = Eigen::MatrixXd;
using P = IfoptQPProblem;
using trajopt_ifopt::BoundsType;
#define LAWP(ret, name, params, pre, lhs, ...)                                                                          \
  ret lhs_##name params { if (!(pre)) throw 0; lhs; }                                                                   \
  ret rhs_##name params { if (!(pre)) throw 0; __VA_ARGS__; }
inline long width(const P& p, long i) { return p.constraint_types_[i] == BoundsType::kEquality ? 2 : 1; }
// column of the first slack variable of row i
inline long slack(const P& p, long i)
{
  long s = 0;
  for (long t = 0; t < i; ++t) s += width(p, t);
  return s;
}
// the tables that setup() leaves behind
#define WF (p.num_nlp_vars_ > 0 && p.num_nlp_cnts_ >= 0 && (long)p.constraint_types_.size() == p.num_nlp_cnts_ && p.num_qp_vars_ == p.num_nlp_vars_ + slack(p, p.num_nlp_cnts_) && \
  p.num_qp_cnts_ == p.num_nlp_cnts_ + p.num_qp_vars_ && p.bounds_lower_.size() == p.num_qp_cnts_ && p.bounds_upper_.size() == p.num_qp_cnts_ && p.box_size_.size() == p.num_nlp_vars_ && \
  p.constraint_merit_coeff_.size() == p.num_nlp_cnts_ && p.constraint_constant_.size() == p.num_nlp_cnts_)
#define ROW (WF && i >= 0 && i < p.num_nlp_cnts_)
#define VAR (WF && j >= 0 && j < p.num_nlp_vars_)
LAWP(double, Q02_jacobian, (P& p, long i, long j), ROW && VAR, p.linearizeConstraints(); return M(p.constraint_matrix_)(i, j),
     const double v = M(p.nlp_->getJacobianOfConstraints())(i, j); return std::abs(v) < 1e-7 ? 0.0 : v)
LAWP(double, Q02_slack_first, (P& p, long i), ROW, p.linearizeConstraints(); return M(p.constraint_matrix_)(i, p.num_nlp_vars_ + slack(p, i)), return p.constraint_types_[i] == BoundsType::kUpperBound ? -1.0 : 1.0)
LAWP(double, Q02_slack_second, (P& p, long i), ROW && p.constraint_types_[i] == BoundsType::kEquality, p.linearizeConstraints(); return M(p.constraint_matrix_)(i, p.num_nlp_vars_ + slack(p, i) + 1), return -1.0)
LAWP(double, Q02_slack_foreign, (P& p, long i, long t), ROW && t >= 0 && t < p.num_nlp_cnts_ && t != i, p.linearizeConstraints(); return M(p.constraint_matrix_)(i, p.num_nlp_vars_ + slack(p, t)), return 0.0)
LAWP(double, Q02_slack_foreign_second, (P& p, long i, long t), ROW && t >= 0 && t < p.num_nlp_cnts_ && t != i && p.constraint_types_[t] == BoundsType::kEquality, p.linearizeConstraints(); return M(p.constraint_matrix_)(i, p.num_nlp_vars_ + slack(p, t) + 1), return 0.0)
LAWP(double, Q02_bound_rows, (P& p, long r, long c), WF && r >= 0 && c >= 0 && r < p.num_qp_vars_ && c < p.num_qp_vars_, p.linearizeConstraints(); return M(p.constraint_matrix_)(p.num_nlp_cnts_ + r, c), return r == c ? 1.0 : 0.0)
LAWP(double, Q02_slack_weight, (P& p, long i), ROW && p.cost_constraints_.empty(), p.updateGradient(); return p.gradient_[p.num_nlp_vars_ + slack(p, i)], return p.constraint_merit_coeff_[i])
LAWP(double, Q02_slack_weight_second, (P& p, long i), ROW && p.cost_constraints_.empty() && p.constraint_types_[i] == BoundsType::kEquality, p.updateGradient(); return p.gradient_[p.num_nlp_vars_ + slack(p, i) + 1], return p.constraint_merit_coeff_[i])
LAWP(long, Q02_gradient_size, (P& p), WF && p.cost_constraints_.empty(), p.updateGradient(); return p.gradient_.size(), return p.num_qp_vars_)
LAWP(double, Q02_constraint_lower, (P& p, long i), ROW, p.updateNLPConstraintBounds(); return p.bounds_lower_[i], return p.nlp_->getBoundsOnConstraints()[i].getLower() - p.constraint_constant_[i])
LAWP(double, Q02_constraint_upper, (P& p, long i), ROW, p.updateNLPConstraintBounds(); return p.bounds_upper_[i], return p.nlp_->getBoundsOnConstraints()[i].getUpper() - p.constraint_constant_[i])
LAWP(double, Q02_constraint_others, (P& p, long r), WF && r >= p.num_nlp_cnts_ && r < p.num_qp_cnts_, p.updateNLPConstraintBounds(); return p.bounds_lower_[r] , return p.bounds_lower_[r])
LAWP(double, Q02_slack_lower, (P& p, long r), WF && r >= p.num_nlp_cnts_ + p.num_nlp_vars_ && r < p.num_qp_cnts_, p.updateSlackVariableBounds(); return p.bounds_lower_[r], return 0.0)
LAWP(double, Q02_slack_upper, (P& p, long r), WF && r >= p.num_nlp_cnts_ + p.num_nlp_vars_ && r < p.num_qp_cnts_, p.updateSlackVariableBounds(); return p.bounds_upper_[r], return (double)INFINITY)
LAWP(double, Q02_slack_others, (P& p, long r), WF && r >= 0 && r < p.num_nlp_cnts_ + p.num_nlp_vars_, p.updateSlackVariableBounds(); return p.bounds_lower_[r], return p.bounds_lower_[r])
LAWP(double, Q02_constant, (P& p, long i), ROW && p.constraint_matrix_.rows() == p.num_qp_cnts_ && p.constraint_matrix_.cols() == p.num_qp_vars_, p.updateConstraintsConstantExpression(); return p.constraint_constant_[i],
     double c = p.nlp_->getConstraints().getValues()[i]; const V x = p.nlp_->getVariableValues(); for (long j = 0; j < p.num_nlp_vars_; ++j) c -= M(p.constraint_matrix_)(i, j) * x[j]; return c)
// the objective: the Gauss-Newton model of the weighted squares of the errors
LAWP(double, Q02_hessian, (P& p, long i, long j), WF && i >= 0 && i < p.num_nlp_vars_ && j >= 0 && j < p.num_nlp_vars_ , p.updateHessian(); return M(p.hessian_)(i, j),
     double s = 0; for (const auto& c : p.cost_constraints_) for (long k = 0; k < c->getRows(); ++k) s += std::abs(c->getCoefficients()[k]) * M(c->getJacobian())(k, i) * M(c->getJacobian())(k, j); return s * (double)(std::abs(s) >= 1e-7))
LAWP(double, Q02_gradient, (P& p, long j), VAR && p.num_nlp_cnts_ == 0 && p.hessian_.rows() == p.num_qp_vars_ && p.hessian_.cols() == p.num_qp_vars_, p.updateGradient(); return p.gradient_[j],
     double s = 0;
     for (const auto& c : p.cost_constraints_) { V e(c->getRows()); trajopt_ifopt::calcBoundsErrors(e, c->getValues(), c->getBounds()); for (long k = 0; k < c->getRows(); ++k) s += 2.0 * c->getCoefficients()[k] * e[k] * M(c->getJacobian())(k, j); }
     const V x = p.nlp_->getVariableValues(); for (long t = 0; t < p.num_nlp_vars_; ++t) s -= 2.0 * M(p.hessian_)(j, t) * x[t]; return s)
// the box around the point, inside the bounds of the variables
#define B (p.nlp_->getBoundsOnOptimizationVariables()[j])
#define BOX (VAR && B.getLower() <= B.getUpper())
LAWP(double, Q07_lower, (P& p, long j), BOX, p.updateNLPVariableBounds(); return p.bounds_lower_[p.num_nlp_cnts_ + j],
     const double x = std::min(std::max(p.nlp_->getVariableValues()[j], B.getLower()), B.getUpper()); return std::max(x - p.box_size_[j], B.getLower()))
LAWP(double, Q07_upper, (P& p, long j), BOX, p.updateNLPVariableBounds(); return p.bounds_upper_[p.num_nlp_cnts_ + j],
     const double x = std::min(std::max(p.nlp_->getVariableValues()[j], B.getLower()), B.getUpper()); return std::min(x + p.box_size_[j], B.getUpper()))
LAWP(double, Q07_set_lower, (P& p, const V& s, long j), BOX && s.size() == p.num_nlp_vars_, p.P::setBoxSize(s); return p.bounds_lower_[p.num_nlp_cnts_ + j],
     const double x = std::min(std::max(p.nlp_->getVariableValues()[j], B.getLower()), B.getUpper()); return std::max(x - s[j], B.getLower()))
LAWP(double, Q07_set_upper, (P& p, const V& s, long j), BOX && s.size() == p.num_nlp_vars_, p.P::setBoxSize(s); return p.bounds_upper_[p.num_nlp_cnts_ + j],
     const double x = std::min(std::max(p.nlp_->getVariableValues()[j], B.getLower()), B.getUpper()); return std::min(x + s[j], B.getUpper()))
LAWP(double, Q07_set_box, (P& p, const V& s, long j), VAR && s.size() == p.num_nlp_vars_, p.P::setBoxSize(s); return p.P::getBoxSize()[j], return s[j])
LAWP(double, Q07_scale_lower, (P& p, double f, long j), BOX, p.P::scaleBoxSize(f); return p.bounds_lower_[p.num_nlp_cnts_ + j],
     const double x = std::min(std::max(p.nlp_->getVariableValues()[j], B.getLower()), B.getUpper()); return std::max(x - p.box_size_[j] * f, B.getLower()))
LAWP(double, Q07_scale_upper, (P& p, double f, long j), BOX, p.P::scaleBoxSize(f); return p.bounds_upper_[p.num_nlp_cnts_ + j],
     const double x = std::min(std::max(p.nlp_->getVariableValues()[j], B.getLower()), B.getUpper()); return std::min(x + p.box_size_[j] * f, B.getUpper()))
LAWP(double, Q07_scale_box, (P& p, double f, long j), VAR, p.P::scaleBoxSize(f); return p.P::getBoxSize()[j], return p.box_size_[j] * f)
LAWP(double, Q07_others_lower, (P& p, long r), WF && r >= 0 && r < p.num_qp_cnts_ && (r < p.num_nlp_cnts_ || r >= p.num_nlp_cnts_ + p.num_nlp_vars_), p.updateNLPVariableBounds(); return p.bounds_lower_[r], return p.bounds_lower_[r])
LAWP(double, Q07_others_upper, (P& p, long r), WF && r >= 0 && r < p.num_qp_cnts_ && (r < p.num_nlp_cnts_ || r >= p.num_nlp_cnts_ + p.num_nlp_vars_), p.updateNLPVariableBounds(); return p.bounds_upper_[r], return p.bounds_upper_[r])
// setup
LAWP(long, Q03_variables, (P& p), true, p.P::setup(); return p.P::getNumNLPVars(), p.P::setup(); return p.nlp_->getNumberOfOptimizationVariables())
LAWP(long, Q03_constraints, (P& p), true, p.P::setup(); return p.P::getNumNLPConstraints(), p.P::setup(); return p.nlp_->getNumberOfConstraints())
LAWP(long, Q03_qp_variables, (P& p), true, p.P::setup(); return p.P::getNumQPVars(), p.P::setup(); return p.num_nlp_vars_ + slack(p, p.num_nlp_cnts_))
LAWP(long, Q03_qp_rows, (P& p), true, p.P::setup(); return p.P::getNumQPConstraints(), p.P::setup(); return p.num_nlp_cnts_ + p.num_qp_vars_)
LAWP(long, Q03_types_size, (P& p), true, p.P::setup(); return (long)p.constraint_types_.size(), p.P::setup(); return p.num_nlp_cnts_)
LAWP(BoundsType, Q03_types, (P& p, long i), i >= 0, p.P::setup(); if (i >= p.num_nlp_cnts_) throw 0; return p.constraint_types_[i], p.P::setup(); if (i >= p.num_nlp_cnts_) throw 0; return p.nlp_->getBoundsOnConstraints()[i].getType())
LAWP(std::vector<std::string>, Q03_names, (P& p), true, p.P::setup(); return p.P::getNLPConstraintNames(), p.P::setup(); std::vector<std::string> n;
     for (const auto& c : p.nlp_->getConstraints().getComponents()) for (long k = 0; k < c->getRows(); ++k) n.push_back(c->getName() + "_" + std::to_string(k)); return n)
LAWP(std::vector<std::string>, Q03_cost_names, (P& p), true, p.P::setup(); return p.P::getNLPCostNames(), p.P::setup(); std::vector<std::string> n;
     for (const auto& c : p.nlp_->getCosts().getComponents()) for (long k = 0; k < c->getRows(); ++k) n.push_back(c->getName() + "_" + std::to_string(k)); return n)
LAWP(double, Q03_merit, (P& p, long i), i >= 0, p.P::setup(); if (i >= p.num_nlp_cnts_) throw 0; return p.P::getConstraintMeritCoeff()[i], p.P::setup(); if (i >= p.num_nlp_cnts_) throw 0; return 10.0)
LAWP(long, Q03_bounds, (P& p), true, p.P::setup(); return p.P::getBoundsLower().size(), p.P::setup(); return p.P::getNumQPConstraints())
LAWP(long, Q03_bounds_upper, (P& p), true, p.P::setup(); return p.P::getBoundsUpper().size(), p.P::setup(); return p.P::getNumQPConstraints())
LAWP(double, Q03_box, (P& p, long j), j >= 0, p.P::setup(); if (j >= p.num_nlp_vars_) throw 0; return p.P::getBoxSize()[j], p.P::setup(); if (j >= p.num_nlp_vars_) throw 0; return 0.1)
// ---------------------------------------------------------------------------------------------- Q08
inline double viol(double x, const trajopt_ifopt::Bounds& b) { return std::max(b.getLower() - x, 0.0) + std::max(x - b.getUpper(), 0.0); }
#define MATRIX (p.constraint_matrix_.rows() == p.num_qp_cnts_ && p.constraint_matrix_.cols() == p.num_qp_vars_)
#define MODEL (p.hessian_.rows() == p.num_qp_vars_ && p.hessian_.cols() == p.num_qp_vars_ && p.gradient_.size() == p.num_qp_vars_)
LAWP(double, Q08_exact_violation, (const P& p, long i), ROW, return p.P::getExactConstraintViolations()[i], return viol(p.nlp_->evaluateConstraints()[i], p.nlp_->getBoundsOnConstraints()[i]))
LAWP(double, Q08_convex_violation, (const P& p, const V& x, long i), ROW && MATRIX && x.size() == p.num_qp_vars_, return p.P::evaluateConvexConstraintViolations(x)[i],
     double v = p.constraint_constant_[i]; for (long j = 0; j < p.num_nlp_vars_; ++j) v += M(p.constraint_matrix_)(i, j) * x[j]; return viol(v, p.nlp_->getBoundsOnConstraints()[i]))
LAWP(double, Q08_exact_total, (const P& p), true, return p.P::getTotalExactCost(), return p.nlp_->evaluateCostFunction())
LAWP(double, Q08_exact_cost, (const P& p, long i), p.nlp_->hasCostTerms() && i >= 0, return p.P::getExactCosts()[i], return p.nlp_->getCosts().getValues()[i])
LAWP(double, Q08_convex_total, (const P& p, const V& x), WF && MODEL && p.num_nlp_costs_ == p.cost_constant_.size() && x.size() == p.num_qp_vars_, return p.P::evaluateTotalConvexCost(x), double s = 0; const V c = p.P::evaluateConvexCosts(x); for (long k = 0; k < c.size(); ++k) s += c[k]; return s)
// the model of the costs: at the point of expansion their exact values, elsewhere the quadratic model of the only cost
LAWP(double, Q08_convex_at_point, (P& p, long i), WF && MODEL && p.num_nlp_costs_ > 0 && i >= 0 && i < p.num_nlp_costs_, p.updateCostsConstantExpression(); return p.P::evaluateConvexCosts(p.nlp_->getVariableValues())[i], return p.nlp_->getCosts().getValues()[i])
LAWP(double, Q08_convex_cost, (P& p, const V& x), WF && MODEL && p.num_nlp_costs_ == 1 && p.cost_constant_.size() == 1 && x.size() == p.num_qp_vars_, return p.P::evaluateConvexCosts(x)[0],
     double s = p.cost_constant_[0]; for (long j = 0; j < p.num_nlp_vars_; ++j) { double t = p.gradient_[j]; for (long k = 0; k < p.num_nlp_vars_; ++k) t += M(p.hessian_)(j, k) * x[k]; s += t * x[j]; } return s)
// with several costs the change of the model is counted once, not once for every cost
LAWP(double, Q08_convex_change, (const P& p, const V& x, const V& y), WF && MODEL && p.num_nlp_costs_ == p.cost_constant_.size() && p.num_nlp_costs_ > 0 && x.size() == p.num_qp_vars_ && y.size() == p.num_qp_vars_, return p.P::evaluateTotalConvexCost(x) - p.P::evaluateTotalConvexCost(y),
     double s = 0; for (long j = 0; j < p.num_nlp_vars_; ++j) { double t = p.gradient_[j], u = t; for (long k = 0; k < p.num_nlp_vars_; ++k) { t += M(p.hessian_)(j, k) * x[k]; u += M(p.hessian_)(j, k) * y[k]; } s += t * x[j] - u * y[j]; } return s)
}
