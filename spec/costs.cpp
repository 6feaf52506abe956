// Reference meaning of the penalty costs built on a constraint
#include <bits/stdc++.h>
#define private public
#define protected public
#include <trajopt_ifopt/core/bounds.h>
#include <trajopt_ifopt/core/constraint_set.h>
#include <trajopt_ifopt/core/cost_term.h>
#include <trajopt_ifopt/costs/squared_cost.h>
#include <trajopt_ifopt/costs/absolute_cost.h>
#include <trajopt_ifopt/utils/ifopt_utils.h>
namespace spec
{
using namespace trajopt_ifopt;
using V = Eigen::VectorXd;
using M = Eigen::MatrixXd;
using CP = std::shared_ptr<ConstraintSet>;
#define LAW(ret, name, params, lhs, rhs)                                                                                \
  ret lhs_##name params { lhs; }                                                                                        \
  ret rhs_##name params { rhs; }
#define LAWP(ret, name, params, pre, lhs, rhs)                                                                          \
  ret lhs_##name params { if (!(pre)) throw 0; lhs; }                                                                   \
  ret rhs_##name params { if (!(pre)) throw 0; rhs; }
inline double err(double x, const Bounds& b) { return x < b.lower_ ? x - b.lower_ : (x > b.upper_ ? x - b.upper_ : 0.0); }
#define SHAPE(c) (c.constraint_->rows_ == c.weights_.size() && c.n_constraints_ == c.weights_.size() && c.rows_ == 1)
#define PROPER(c) for (long k = 0; k < c.weights_.size(); ++k) if (!(c.constraint_->getBounds()[k].lower_ <= c.constraint_->getBounds()[k].upper_)) throw 7
LAWP(double, I05_sq_value, (SquaredCost & c), SHAPE(c), PROPER(c); return c.SquaredCost::getCost(),
     PROPER(c); double s = 0; for (long k = 0; k < c.weights_.size(); ++k) s += c.weights_[k] * err(c.constraint_->getValues()[k], c.constraint_->getBounds()[k]) * err(c.constraint_->getValues()[k], c.constraint_->getBounds()[k]); return s)
LAWP(double, I05_abs_value, (AbsoluteCost & c), SHAPE(c), PROPER(c); return c.AbsoluteCost::getCost(),
     PROPER(c); double s = 0; for (long k = 0; k < c.weights_.size(); ++k) s += c.weights_[k] * std::abs(err(c.constraint_->getValues()[k], c.constraint_->getBounds()[k])); return s)
LAWP(double, I05_sq_jacobian, (SquaredCost & c, long j), SHAPE(c), PROPER(c); return M(c.SquaredCost::getJacobian())(0, j),
     PROPER(c); double s = 0; for (long k = 0; k < c.weights_.size(); ++k) s += 2.0 * c.weights_[k] * err(c.constraint_->getValues()[k], c.constraint_->getBounds()[k]) * M(c.constraint_->getJacobian())(k, j); return s)
inline double sgn(double e) { return std::abs(e) < 1e-12 ? 0.0 : (e > 0.0 ? 1.0 : -1.0); }
LAWP(double, I05_abs_jacobian, (AbsoluteCost & c, long j), SHAPE(c), PROPER(c); return M(c.AbsoluteCost::getJacobian())(0, j),
     PROPER(c); double s = 0; for (long k = 0; k < c.weights_.size(); ++k) s += c.weights_[k] * sgn(err(c.constraint_->getValues()[k], c.constraint_->getBounds()[k])) * M(c.constraint_->getJacobian())(k, j); return s)
LAWP(long, I05_sq_jac_rows, (SquaredCost & c), SHAPE(c), return c.SquaredCost::getJacobian().rows(), return 1)
LAWP(long, I05_sq_jac_cols, (SquaredCost & c), SHAPE(c), return c.SquaredCost::getJacobian().cols(), return c.constraint_->getJacobian().cols())
LAWP(long, I05_abs_jac_size, (AbsoluteCost & c), SHAPE(c), return c.AbsoluteCost::getJacobian().size(), return c.constraint_->getJacobian().cols())
LAWP(double, I05_row, (CostTerm & c), c.rows_ == 1, return c.CostTerm::getValues()[0], return c.getCost())
LAW(long, I05_sq_update_calls, (SquaredCost & c), c.SquaredCost::update(); return 0, c.constraint_->update(); return 0)
LAW(long, I05_abs_update_calls, (AbsoluteCost & c), c.AbsoluteCost::update(); return 0, c.constraint_->update(); return 0)
LAWP(double, I05_sq_weight, (CP p, const V& w, long k), 0 <= k && k < w.size(), SquaredCost c(p, w); return c.weights_[k], return std::abs(w[k]))
LAWP(double, I05_abs_weight, (CP p, const V& w, long k), 0 <= k && k < w.size(), AbsoluteCost c(p, w); return c.weights_[k], return std::abs(w[k]))
LAW(long, I05_sq_weights, (CP p, const V& w), SquaredCost c(p, w); return c.weights_.size(), return w.size())
LAW(long, I05_abs_weights, (CP p, const V& w), AbsoluteCost c(p, w); return c.weights_.size(), return w.size())
LAW(long, I05_sq_count, (CP p, const V& w), SquaredCost c(p, w); return c.n_constraints_, return p->rows_)
LAW(long, I05_abs_count, (CP p, const V& w), AbsoluteCost c(p, w); return c.n_constraints_, return p->rows_)
LAWP(double, I05_sq_unit, (CP p, long k), 0 <= k && k < p->rows_, SquaredCost c(p); return c.weights_[k], return 1.0)
LAWP(double, I05_abs_unit, (CP p, long k), 0 <= k && k < p->rows_, AbsoluteCost c(p); return c.weights_[k], return 1.0)
LAW(long, I05_sq_units, (CP p), SquaredCost c(p); return c.weights_.size(), return p->rows_)
LAW(long, I05_abs_units, (CP p), AbsoluteCost c(p); return c.weights_.size(), return p->rows_)
LAW(CP, I05_sq_owns, (CP p, const V& w), SquaredCost c(p, w); return c.constraint_, return p)
LAW(CP, I05_abs_owns, (CP p, const V& w), AbsoluteCost c(p, w); return c.constraint_, return p)
}  // namespace spec
