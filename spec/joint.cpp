// Reference meaning of the joint constraints of trajopt_ifopt
#include <bits/stdc++.h>
#define private public
#define protected public
#include <trajopt_ifopt/variable_sets/var.h>
#include <trajopt_ifopt/variable_sets/nodes_variables.h>
#include <trajopt_ifopt/core/bounds.h>
#include <trajopt_ifopt/constraints/joint_position_constraint.h>
#include <trajopt_ifopt/constraints/joint_velocity_constraint.h>
#include <trajopt_ifopt/constraints/joint_acceleration_constraint.h>
#include <trajopt_ifopt/constraints/joint_jerk_constraint.h>
namespace spec
{
using namespace trajopt_ifopt;
using V = Eigen::VectorXd;
using M = Eigen::MatrixXd;
using Vars = std::vector<std::shared_ptr<const Var>>;
#define LAW(ret, name, params, lhs, rhs)                                                                                \
  ret lhs_##name params { lhs; }                                                                                        \
  ret rhs_##name params { rhs; }
#define LAWP(ret, name, params, pre, lhs, ...)                                                                          \
  ret lhs_##name params { if (!(pre)) throw 0; lhs; }                                                                   \
  ret rhs_##name params { if (!(pre)) throw 0; __VA_ARGS__; }
#define Q(i, k) c.position_vars_[i]->values_[k]
#define IX(i) c.position_vars_[i]->index_
// what the constructors establish
#define DIST3(b) (IX(b) != IX((b) + 1) && IX(b) != IX((b) + 2) && IX((b) + 1) != IX((b) + 2))
#define TRAJ(least) (c.n_vars_ == (long)c.position_vars_.size() && c.n_vars_ >= least && c.n_dof_ >= 1 && c.n_dof_ == c.position_vars_[0]->values_.size())
#define VEL TRAJ(2)
#define ACC TRAJ(4)
#define JERK TRAJ(6)
#define AT(steps) (0 <= s && s < steps && 0 <= k && k < c.n_dof_ && c.rows_ == c.n_dof_ * (steps))
// values: first, second and third differences of consecutive waypoints
LAWP(V, I01_vel_values, (const JointVelConstraint& c), VEL, return c.JointVelConstraint::getValues(), const long n = c.n_dof_, T = c.n_vars_; V o(n * (T - 1));
     for (long i = 0; i < T - 1; ++i) for (long k = 0; k < n; ++k) o[i * n + k] = Q(i + 1, k) - Q(i, k); return o)
LAWP(V, I01_acc_values, (const JointAccelConstraint& c), ACC, return c.JointAccelConstraint::getValues(), const long n = c.n_dof_, T = c.n_vars_; V o(n * T);
     for (long i = 0; i < T; ++i) for (long k = 0; k < n; ++k) { const long b = std::min(i, T - 1 - 2) < i ? i - 2 : i; o[i * n + k] = Q(b + 2, k) - 2 * Q(b + 1, k) + Q(b, k); } return o)
LAWP(V, I01_jerk_values, (const JointJerkConstraint& c), JERK, return c.JointJerkConstraint::getValues(), const long n = c.n_dof_, T = c.n_vars_; V o(n * T);
     for (long i = 0; i < T; ++i) for (long k = 0; k < n; ++k) { const long b = i <= T - 4 ? i : i - 3; o[i * n + k] = Q(b + 3, k) - 3 * Q(b + 2, k) + 3 * Q(b + 1, k) - Q(b, k); } return o)
// Jacobians: the derivative of each value with respect to each variable
LAWP(double, I01_vel_jacobian, (const JointVelConstraint& c, long s, long k, long j), VEL && AT(c.n_vars_ - 1) && IX(s) != IX(s + 1), return M(c.JointVelConstraint::getJacobian())(s * c.n_dof_ + k, j),
     if (j == IX(s + 1) + k) return 1; if (j == IX(s) + k) return -1; return 0)
// (early: the stencil starts at the step itself; late: the last steps repeat the last full stencil)
#define ENTRY(name, cls, pre, b, far, i, v)                                                                             \
  LAWP(double, I01_##name##_jacobian_##i, (const cls& c, long s, long k), pre && AT(c.n_vars_) && far(b), return M(c.cls::getJacobian())(s * c.n_dof_ + k, IX((b) + i) + k), return v)
#define DIST4(b) (DIST3(b) && IX(b) != IX((b) + 3) && IX((b) + 1) != IX((b) + 3) && IX((b) + 2) != IX((b) + 3))
#define NOT3(b) (j != IX(b) + k && j != IX((b) + 1) + k && j != IX((b) + 2) + k)
#define NOT4(b) (NOT3(b) && j != IX((b) + 3) + k)
#define ZERO(name, cls, pre, b, far) LAWP(double, I01_##name##_jacobian_zero, (const cls& c, long s, long k, long j), pre && AT(c.n_vars_) && far(b), return M(c.cls::getJacobian())(s * c.n_dof_ + k, j), return 0)
#define STENCIL3(name, pre, b) ENTRY(name, JointAccelConstraint, pre, b, DIST3, 0, 1) ENTRY(name, JointAccelConstraint, pre, b, DIST3, 1, -2) ENTRY(name, JointAccelConstraint, pre, b, DIST3, 2, 1) ZERO(name, JointAccelConstraint, pre, b, NOT3)
#define STENCIL4(name, pre, b) ENTRY(name, JointJerkConstraint, pre, b, DIST4, 0, -1) ENTRY(name, JointJerkConstraint, pre, b, DIST4, 1, 3) ENTRY(name, JointJerkConstraint, pre, b, DIST4, 2, -3) ENTRY(name, JointJerkConstraint, pre, b, DIST4, 3, 1) ZERO(name, JointJerkConstraint, pre, b, NOT4)
STENCIL3(acc_early, ACC && s <= c.n_vars_ - 3, s)
STENCIL3(acc_late, ACC && s >= c.n_vars_ - 2, s - 2)
STENCIL4(jerk_early, JERK && s <= c.n_vars_ - 4, s)
STENCIL4(jerk_late, JERK && s >= c.n_vars_ - 3, s - 3)
#define SIZE(name, cls, pre, steps)                                                                                     \
  LAWP(long, I01_##name##_rows, (const cls& c), pre && c.rows_ == c.n_dof_ * (steps), return c.cls::getJacobian().rows(), return c.n_dof_ * (steps))                                    \
  LAWP(long, I01_##name##_cols, (const cls& c), pre, return c.cls::getJacobian().cols(), return c.variables_->getRows())       \
  LAW(V, I01_##name##_coefficients, (const cls& c), return c.cls::getCoefficients(), return c.coeffs_)                        \
  LAW(std::vector<Bounds>, I01_##name##_bounds, (const cls& c), return c.cls::getBounds(), return c.bounds_)
SIZE(vel, JointVelConstraint, VEL, c.n_vars_ - 1)
SIZE(acc, JointAccelConstraint, ACC, c.n_vars_)
SIZE(jerk, JointJerkConstraint, JERK, c.n_vars_)
// construction: one row, target and coefficient per step and joint; inputs that cannot be supported are rejected
#define MAKE(name, cls, least, steps, dflt)                                                                             \
  LAWP(long, I01_##name##_new_rows, (const V& t, const Vars& q, const V& w), q.size() >= least && t.size() >= 1 && (w.array() > 0).all() && w.rows() == 1, cls c(t, q, w); return c.rows_, return t.size() * ((long)q.size() - steps))            \
  LAWP(long, I01_##name##_new_dof, (const V& t, const Vars& q, const V& w), q.size() >= least && t.size() >= 1 && (w.array() > 0).all() && w.rows() == 1, cls c(t, q, w); return c.n_dof_, return t.size())                     \
  LAWP(long, I01_##name##_new_vars, (const V& t, const Vars& q, const V& w), q.size() >= least && t.size() >= 1 && (w.array() > 0).all() && w.rows() == 1, cls c(t, q, w); return c.n_vars_, return q.size())                   \
  LAWP(double, I01_##name##_new_lower, (const V& t, const Vars& q, const V& w, long s, long k), q.size() >= least && t.size() >= 1 && (w.array() > 0).all() && w.rows() == 1 && 0 <= s && s < (long)q.size() - steps && 0 <= k && k < t.size(), \
       cls c(t, q, w); return c.bounds_[s * t.size() + k].lower_, return t[k])                                            \
  LAWP(double, I01_##name##_new_upper, (const V& t, const Vars& q, const V& w, long s, long k), q.size() >= least && t.size() >= 1 && (w.array() > 0).all() && w.rows() == 1 && 0 <= s && s < (long)q.size() - steps && 0 <= k && k < t.size(), \
       cls c(t, q, w); return c.bounds_[s * t.size() + k].upper_, return t[k])                                            \
  LAWP(V, I01_##name##_new_coeff_all, (const V& t, const Vars& q, const V& w), q.size() >= least && t.size() >= 2 && (w.array() > 0).all() && w.rows() == 1, cls c(t, q, w); return c.coeffs_, return V::Constant(t.size() * ((long)q.size() - steps), w[0])) \
  LAWP(V, I01_##name##_new_coeff_default, (const V& t, const Vars& q, const V& w), q.size() >= least && t.size() >= 1 && w.rows() == 0, cls c(t, q, w); return c.coeffs_, return V::Constant(t.size() * ((long)q.size() - steps), dflt)) \
  LAWP(V, I01_##name##_new_coeff_each, (const V& t, const Vars& q, const V& w), q.size() >= least && t.size() >= 1 && (w.array() > 0).all() && w.rows() == t.size(), cls c(t, q, w); return c.coeffs_,    \
       V o(t.size() * ((long)q.size() - steps)); for (long s = 0; s < (long)q.size() - steps; ++s) for (long k = 0; k < t.size(); ++k) o[s * t.size() + k] = w[k]; return o) \
  LAW(bool, I01_##name##_new_accepts, (const V& t, const Vars& q, const V& w), cls c(t, q, w); return true,               \
      if (q.size() < least) throw 1; if (!(w.array() > 0).all()) throw 2; if (w.rows() != 0 && w.rows() != 1 && w.rows() != t.size()) throw 3; return true)
MAKE(vel, JointVelConstraint, 2, 1, 5)
MAKE(acc, JointAccelConstraint, 4, 0, 1)
MAKE(jerk, JointJerkConstraint, 6, 0, 1)
// position: the joints named by indices_, each with derivative one at its own column; range bounds become two one-sided rows of the same joint and coefficient
LAWP(V, I01_pos_values, (const JointPosConstraint& c), c.coeffs_.size() == (long)c.indices_.size(), return c.JointPosConstraint::getValues(), V o(c.indices_.size()); for (long i = 0; i < (long)c.indices_.size(); ++i) o[i] = c.position_var_->values_[c.indices_[i]]; return o)
LAWP(double, I01_pos_jacobian, (const JointPosConstraint& c, long i, long j), 0 <= i && i < (long)c.indices_.size() && c.rows_ == (long)c.indices_.size(), return M(c.JointPosConstraint::getJacobian())(i, j),
     if (j == c.position_var_->index_ + c.indices_[i]) return 1; return 0)
LAW(long, I01_pos_rows, (const JointPosConstraint& c), return c.JointPosConstraint::getJacobian().rows(), return c.rows_)
LAW(long, I01_pos_cols, (const JointPosConstraint& c), return c.JointPosConstraint::getJacobian().cols(), return c.variables_->getRows())
LAW(V, I01_pos_coefficients, (const JointPosConstraint& c), return c.JointPosConstraint::getCoefficients(), return c.coeffs_)
LAW(std::vector<Bounds>, I01_pos_bounds, (const JointPosConstraint& c), return c.JointPosConstraint::getBounds(), return c.bounds_)
using RH = RangeBoundHandling;
using B = std::vector<Bounds>;
using P1 = std::shared_ptr<const Var>;
#define OKW(n) ((w.array() > 0).all() && n >= 1 && (w.rows() == 1 || w.rows() == n))
#define WT(k) (w.rows() == 1 ? w[0] : w[k])
LAWP(V, I01_pos_target_coeff, (const V& t, const P1& q, const V& w, RH h), OKW(t.size()), JointPosConstraint c(t, q, w, "n", h); return c.coeffs_, V o(t.size()); for (long k = 0; k < t.size(); ++k) o[k] = WT(k); return o)
LAWP(double, I01_pos_target_lower, (const V& t, const P1& q, const V& w, RH h, long k), OKW(t.size()) && 0 <= k && k < t.size(), JointPosConstraint c(t, q, w, "n", h); return c.bounds_[k].lower_, return t[k])
LAWP(double, I01_pos_target_upper, (const V& t, const P1& q, const V& w, RH h, long k), OKW(t.size()) && 0 <= k && k < t.size(), JointPosConstraint c(t, q, w, "n", h); return c.bounds_[k].upper_, return t[k])
LAWP(long, I01_pos_target_index, (const V& t, const P1& q, const V& w, RH h, long k), OKW(t.size()) && 0 <= k && k < t.size(), JointPosConstraint c(t, q, w, "n", h); return c.indices_[k], return k)
LAWP(long, I01_pos_target_rows, (const V& t, const P1& q, const V& w, RH h), OKW(t.size()), JointPosConstraint c(t, q, w, "n", h); return c.rows_ + 100 * c.indices_.size() + 10000 * c.bounds_.size(), return 10101 * t.size())
LAWP(V, I01_pos_range_kept_coeff, (const B& t, const P1& q, const V& w), OKW((long)t.size()), JointPosConstraint c(t, q, w, "n", RH::kKeepAsIs); return c.coeffs_, V o(t.size()); for (long k = 0; k < (long)t.size(); ++k) o[k] = WT(k); return o)
LAWP(V, I01_pos_range_default_coeff, (const B& t, const P1& q, const V& w), t.size() >= 1 && w.rows() == 0, JointPosConstraint c(t, q, w, "n", RH::kKeepAsIs); return c.coeffs_, return V::Ones(t.size()))
LAWP(B, I01_pos_range_kept_bounds, (const B& t, const P1& q, const V& w), OKW((long)t.size()), JointPosConstraint c(t, q, w, "n", RH::kKeepAsIs); return c.bounds_, return t)
LAWP(B, I01_pos_range_split_bounds, (const B& t, const P1& q, const V& w), OKW((long)t.size()), JointPosConstraint c(t, q, w, "n", RH::kSplitToTwoInequalities); return c.bounds_,
     B o; for (const auto& b : t) if (b.type_ == BoundsType::kRangeBound) { o.push_back(Bounds(b.lower_, INFINITY)); o.push_back(Bounds(-INFINITY, b.upper_)); } else o.push_back(b); return o)
LAWP(std::vector<int>, I01_pos_range_split_indices, (const B& t, const P1& q, const V& w), OKW((long)t.size()), JointPosConstraint c(t, q, w, "n", RH::kSplitToTwoInequalities); return c.indices_,
     std::vector<int> o; for (int i = 0; i < (int)t.size(); ++i) { o.push_back(i); if (t[i].type_ == BoundsType::kRangeBound) o.push_back(i); } return o)
LAWP(V, I01_pos_range_split_coeff, (const B& t, const P1& q, const V& w), OKW((long)t.size()), JointPosConstraint c(t, q, w, "n", RH::kSplitToTwoInequalities); return c.coeffs_,
     std::vector<double> o; for (int i = 0; i < (int)t.size(); ++i) { o.push_back(WT(i)); if (t[i].type_ == BoundsType::kRangeBound) o.push_back(WT(i)); } return Eigen::Map<V>(o.data(), o.size()))
LAWP(bool, I01_pos_range_accepts, (const B& t, const P1& q, const V& w, RH h), t.size() >= 1, JointPosConstraint c(t, q, w, "n", h); return true,
     if (!(w.array() > 0).all()) throw 1; if (w.rows() > 1 && w.rows() != (long)t.size()) throw 2; return true)
}  // namespace spec
