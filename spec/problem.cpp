// Reference meaning of problems, composites, nodes and variables
#include <bits/stdc++.h>
#define private public
#define protected public
#include <trajopt_common/collision_utils.h>
#include <trajopt_ifopt/core/bounds.h>
#include <trajopt_ifopt/core/composite.h>
#include <trajopt_ifopt/core/problem.h>
#include <trajopt_ifopt/core/cost_term.h>
#include <trajopt_ifopt/variable_sets/var.h>
#include <trajopt_ifopt/variable_sets/node.h>
#include <trajopt_ifopt/variable_sets/nodes_variables.h>
#include <trajopt_ifopt/variable_sets/nodes_observer.h>
#include <trajopt_ifopt/costs/squared_cost.h>
#include <trajopt_ifopt/costs/absolute_cost.h>
#include <trajopt_ifopt/utils/ifopt_utils.h>
namespace spec
{
using namespace trajopt_ifopt;
using V = Eigen::VectorXd;
using M = Eigen::MatrixXd;
using CD = CompositeDifferentiable;
using DP = std::shared_ptr<Differentiable>;
using B = std::vector<Bounds>;
#define LAW(ret, name, params, lhs, rhs)                                                                                \
  ret lhs_##name params { lhs; }                                                                                        \
  ret rhs_##name params { rhs; }
#define LAWP(ret, name, params, pre, lhs, rhs)                                                                          \
  ret lhs_##name params { if (!(pre)) throw 0; lhs; }                                                                   \
  ret rhs_##name params { if (!(pre)) throw 0; rhs; }
#define STACK (c.mode_ == Differentiable::Mode::kStackRows)
// ------------------------------------------------------------------ composites
inline long before(const CD& c, long i) { long s = 0; for (long k = 0; k < i; ++k) s += c.components_[k]->getRows(); return s; }
inline long total(const CD& c) { return before(c, c.components_.size()); }
#define IN(i, r) (0 <= i && i < (long)c.components_.size() && 0 <= r && r < c.components_[i]->getRows())
LAWP(double, I03_stack_values, (const CD& c, long i, long r), STACK && c.rows_ == total(c) && IN(i, r), return c.CD::getValues()[before(c, i) + r], return c.components_[i]->getValues()[r])
LAWP(double, I03_stack_coefficients, (const CD& c, long i, long r), STACK && c.rows_ == total(c) && IN(i, r), return c.CD::getCoefficients()[before(c, i) + r], return c.components_[i]->getCoefficients()[r])
LAWP(double, I03_stack_jacobian, (const CD& c, long i, long r, long j), STACK && c.rows_ == total(c) && IN(i, r) && 0 <= j && j < c.num_vars_, return M(c.CD::getJacobian())(before(c, i) + r, j), return M(c.components_[i]->getJacobian())(r, j))
LAW(B, I03_stack_bounds, (const CD& c), return c.CD::getBounds(), B o; for (const auto& x : c.components_) for (const auto& b : x->getBounds()) o.push_back(b); return o)
LAW(long, I03_values_size, (const CD& c), return c.CD::getValues().size(), return c.rows_)
LAW(long, I03_coefficients_size, (const CD& c), return c.CD::getCoefficients().size(), return c.rows_)
LAW(long, I03_jacobian_rows, (const CD& c), return c.CD::getJacobian().rows(), return c.rows_)
LAW(long, I03_jacobian_cols, (const CD& c), return c.CD::getJacobian().cols(), return c.num_vars_)
LAW(long, I03_add_rows, (CD & c, DP d), c.CD::addComponent(d); return c.rows_, return c.rows_ + d->getRows())
LAW(std::vector<DP>, I03_add_last, (CD & c, DP d), c.CD::addComponent(d); return c.components_, std::vector<DP> o = c.components_; o.push_back(d); return o)
LAW(long, I03_clear, (CD & c), c.CD::clearComponents(); return c.rows_ + 100 * c.components_.size(), return 0)
LAW(bool, I03_empty, (const CD& c), return c.CD::empty(), return c.components_.size() == 0)
LAWP(long, I03_update_rows, (CD & c), c.dynamic_, return c.CD::update(), long s = 0; for (auto& x : c.components_) s += x->update(); return s)
// costs semantics: everything accumulates in one row
#define SCALAR (c.mode_ == Differentiable::Mode::kSumToScalar && c.rows_ == 1)
#define ONE(c) inline void one_row(const CD& c) { for (long k = 0; k < (long)c.components_.size(); ++k) if (c.components_[k]->getRows() != 1) throw 9; }
ONE(c)
LAWP(double, I03_sum_values, (const CD& c), SCALAR, one_row(c); return c.CD::getValues()[0], one_row(c); double s = 0; for (long k = 0; k < (long)c.components_.size(); ++k) s += c.components_[k]->getValues()[0]; return s)
LAWP(double, I03_sum_jacobian, (const CD& c, long j), SCALAR && 0 <= j && j < c.num_vars_, one_row(c); return M(c.CD::getJacobian())(0, j), one_row(c); double s = 0; for (long k = 0; k < (long)c.components_.size(); ++k) s += M(c.components_[k]->getJacobian())(0, j); return s)
// ------------------------------------------------------------------ problems
#define PSTACK (p.costs_.mode_ == Differentiable::Mode::kStackRows && p.constraints_.mode_ == Differentiable::Mode::kStackRows)
LAWP(double, I03_cost, (Problem & p), PSTACK && p.costs_.rows_ == total(p.costs_), return p.evaluateCostFunction(),
     double s = 0; for (long k = 0; k < (long)p.costs_.components_.size(); ++k) for (long r = 0; r < p.costs_.components_[k]->getRows(); ++r) s += p.costs_.components_[k]->getValues()[r]; return s)
LAWP(double, I03_cost_gradient, (Problem & p, long j), PSTACK && p.costs_.rows_ == total(p.costs_) && p.costs_.rows_ > 0 && 0 <= j && j < p.costs_.num_vars_, return p.evaluateCostFunctionGradient(false, 0)[j],
     double s = 0; for (long k = 0; k < (long)p.costs_.components_.size(); ++k) for (long r = 0; r < p.costs_.components_[k]->getRows(); ++r) s += M(p.costs_.components_[k]->getJacobian())(r, j); return s)
LAW(bool, I03_has_costs, (const Problem& p), return p.hasCostTerms(), return p.costs_.rows_ > 0)
LAW(V, I03_constraints, (Problem & p), return p.evaluateConstraints(), return p.constraints_.CD::getValues())
LAW(B, I03_constraint_bounds, (const Problem& p), return p.getBoundsOnConstraints(), return p.constraints_.CD::getBounds())
LAW(long, I03_constraint_number, (const Problem& p), return p.getNumberOfConstraints(), return p.constraints_.CD::getBounds().size())
LAW(Jacobian, I03_constraint_jacobian, (const Problem& p), return p.getJacobianOfConstraints(), return p.constraints_.CD::getJacobian())
LAW(Jacobian, I03_cost_jacobian, (const Problem& p), return p.getJacobianOfCosts(), return p.costs_.CD::getJacobian())
LAW(long, I03_variable_number, (const Problem& p), return p.getNumberOfOptimizationVariables(), return p.variables_->getRows())
LAW(V, I03_variables, (const Problem& p), return p.getVariableValues(), return p.variables_->getValues())
LAW(B, I03_variable_bounds, (const Problem& p), return p.getBoundsOnOptimizationVariables(), return p.variables_->getBounds())
LAW(std::vector<DP>, I03_add_constraint, (Problem & p, std::shared_ptr<ConstraintSet> s), p.addConstraintSet(s); return p.constraints_.components_, std::vector<DP> o = p.constraints_.components_; o.push_back(s); return o)
LAW(long, I03_add_constraint_rows, (Problem & p, std::shared_ptr<ConstraintSet> s), p.addConstraintSet(s); return p.constraints_.rows_, return p.constraints_.rows_ + s->getRows())
LAW(std::vector<DP>, I03_add_constraint_costs, (Problem & p, std::shared_ptr<ConstraintSet> s), p.addConstraintSet(s); return p.costs_.components_, return p.costs_.components_)
LAW(std::shared_ptr<Variables>, I03_add_constraint_link, (Problem & p, std::shared_ptr<ConstraintSet> s), p.addConstraintSet(s); return s->variables_, return p.variables_)
LAW(std::vector<DP>, I03_add_cost, (Problem & p, std::shared_ptr<CostTerm> s), p.addCostSet(s); return p.costs_.components_, std::vector<DP> o = p.costs_.components_; o.push_back(s); return o)
LAW(long, I03_add_cost_rows, (Problem & p, std::shared_ptr<CostTerm> s), p.addCostSet(s); return p.costs_.rows_, return p.costs_.rows_ + s->getRows())
LAW(std::vector<DP>, I03_add_cost_constraints, (Problem & p, std::shared_ptr<CostTerm> s), p.addCostSet(s); return p.constraints_.components_, return p.constraints_.components_)
LAW(std::shared_ptr<Variables>, I03_add_cost_link, (Problem & p, std::shared_ptr<CostTerm> s), p.addCostSet(s); return s->variables_, return p.variables_)
LAW(V, I03_set_calls, (Problem & p, const double* x), p.setVariables(x); return V(), p.variables_->setVariables(Eigen::Map<const V>(x, p.variables_->getRows())); p.constraints_.CD::update(); p.costs_.CD::update(); return V())
LAW(int, I03_update_calls, (CD & c), if (!c.dynamic_) throw 1; c.CD::update(); return 0, if (!c.dynamic_) throw 1; for (auto& x : c.components_) x->update(); return 0)
LAW(const CD*, I03_get_constraints, (const Problem& p), return &p.getConstraints(), return &p.constraints_)
LAW(const CD*, I03_get_costs, (const Problem& p), return &p.getCosts(), return &p.costs_)
LAW(std::shared_ptr<Variables>, I03_get_variables, (const Problem& p), return p.getOptVariables(), return p.variables_)
LAW(V, I03_save, (Problem & p), p.saveCurrent(); return p.x_prev.back(), return p.variables_->getValues())
LAW(long, I03_save_count, (Problem & p), p.saveCurrent(); return p.x_prev.size(), return p.x_prev.size() + 1)
LAW(long, I03_iteration_count, (Problem & p), return p.getIterationCount(), return p.x_prev.size())
LAWP(int, I03_restore_calls, (Problem & p, int i), 0 <= i && i < (int)p.x_prev.size(), p.setOptVariables(i); return 0, p.variables_->setVariables(p.x_prev[i]); return 0)
LAWP(int, I03_restore_final_calls, (Problem & p), p.x_prev.size() > 0, p.setOptVariablesFinal(); return 0, p.variables_->setVariables(p.x_prev[p.x_prev.size() - 1]); return 0)
// ------------------------------------------------------------------ variables
#define VAR(v) ((long)v.names_.size() == v.values_.size() && (long)v.bounds_.size() == v.values_.size())
#define HAS(n, x) (0 <= k && k < v.values_.size() && 0 <= v.index_ && v.index_ + v.values_.size() <= x.size())
LAWP(double, I04_var_set_value, (Var & v, const V& x, long k), VAR(v) && HAS(v, x), v.setVariables(x); return v.values_[k], return x[v.index_ + k])
LAWP(long, I04_var_set_size, (Var & v, const V& x), VAR(v) && 0 <= v.index_ && v.index_ + v.values_.size() <= x.size(), v.setVariables(x); return v.values_.size(), return v.values_.size())
LAW(long, I04_var_set_index, (Var & v, const V& x), v.setVariables(x); return v.index_, return v.index_)
LAW(long, I04_var_increment, (Var & v, long d), v.incrementIndex(d); return v.index_, return v.index_ + d)
LAW(V, I04_var_value, (const Var& v), return v.value(), return v.values_)
LAW(B, I04_var_bounds, (const Var& v), return v.bounds(), return v.bounds_)
LAW(std::vector<std::string>, I04_var_names, (const Var& v), return v.name(), return v.names_)
LAW(long, I04_var_index, (const Var& v), return v.getIndex(), return v.index_)
LAW(long, I04_var_size, (const Var& v), return v.size(), return v.values_.size())
inline double into(double x, const Bounds& b) { return x < b.lower_ ? b.lower_ : (x > b.upper_ ? b.upper_ : x); }
#define NEWV Var v(i, "id", n, x, b, nullptr)
#define FITS (n.size() == b.size() && (long)n.size() == x.size())
using N = std::vector<std::string>;
LAWP(double, I04_new_value, (long i, const N& n, const V& x, const B& b, long k), FITS && 0 <= k && k < x.size() && b[k].lower_ <= b[k].upper_, NEWV; return v.values_[k], return into(x[k], b[k]))
LAWP(long, I04_new_size, (long i, const N& n, const V& x, const B& b), FITS, NEWV; return v.values_.size(), return x.size())
LAWP(B, I04_new_bounds, (long i, const N& n, const V& x, const B& b), FITS, NEWV; return v.bounds_, return b)
LAWP(N, I04_new_names, (long i, const N& n, const V& x, const B& b), FITS, NEWV; return v.names_, return n)
LAWP(long, I04_new_index, (long i, const N& n, const V& x, const B& b), FITS, NEWV; return v.index_, return i)
LAWP(bool, I04_new_rejects, (long i, const N& n, const V& x, const B& b), !FITS, NEWV; return true, throw 1)
LAWP(double, I04_scalar_value, (long i, double x, Bounds b), b.lower_ <= b.upper_, Var v(i, "id", x, b, nullptr); return v.values_[0], return into(x, b))
LAW(long, I04_scalar_shape, (long i, double x, Bounds b), Var v(i, "id", x, b, nullptr); return v.values_.size() + 100 * v.bounds_.size() + 10000 * v.names_.size(), return 10101)
LAW(long, I04_scalar_index, (long i, double x, Bounds b), Var v(i, "id", x, b, nullptr); return v.index_, return i)
// ------------------------------------------------------------------ nodes: variables one after the other
inline long before(const Node& n, long i) { long s = 0; for (long k = 0; k < i; ++k) s += n.vars_[k]->values_.size(); return s; }
inline long before(const NodesVariables& n, long i) { long s = 0; for (long k = 0; k < i; ++k) s += n.nodes_[k]->length_; return s; }
LAW(V, I04_node_values, (const Node& n), return n.Node::getValues(), std::vector<double> o; for (const auto& v : n.vars_) for (long k = 0; k < v->values_.size(); ++k) o.push_back(v->values_[k]); return Eigen::Map<V>(o.data(), o.size()))
LAW(B, I04_node_bounds, (const Node& n), return n.Node::getBounds(), B o; for (const auto& v : n.vars_) for (const auto& b : v->bounds_) o.push_back(b); return o)
LAW(long, I04_node_size, (const Node& n), return n.Node::size(), return n.length_)
LAWP(double, I04_node_set_value, (Node & n, const V& x, long i, long k), 0 <= i && i < (long)n.vars_.size() && 0 <= k && k < n.vars_[i]->values_.size() && 0 <= n.vars_[i]->index_ && n.vars_[i]->index_ + n.vars_[i]->values_.size() <= x.size(),
     n.Node::setVariables(x); return n.vars_[i]->values_[k], return x[n.vars_[i]->index_ + k])
LAWP(long, I04_node_increment, (Node & n, long d, long i), 0 <= i && i < (long)n.vars_.size(), n.Node::incrementIndex(d); return n.vars_[i]->index_, return n.vars_[i]->index_ + d)
LAWP(long, I04_add_index, (Node & n, const N& c, const V& x, const B& b), c.size() == b.size() && (long)c.size() == x.size(), n.addVar("v", c, x, b); return n.vars_.back()->index_, return n.length_)
LAWP(long, I04_add_length, (Node & n, const N& c, const V& x, const B& b), c.size() == b.size() && (long)c.size() == x.size(), n.addVar("v", c, x, b); return n.length_, return n.length_ + c.size())
LAWP(long, I04_add_count, (Node & n, const N& c, const V& x, const B& b), c.size() == b.size() && (long)c.size() == x.size(), n.addVar("v", c, x, b); return n.vars_.size(), return n.vars_.size() + 1)
LAW(long, I04_add_scalar_index, (Node & n, double x, Bounds b), n.addVar("v", x, b); return n.vars_.back()->index_, return n.length_)
LAW(long, I04_add_scalar_length, (Node & n, double x, Bounds b), n.addVar("v", x, b); return n.length_, return n.length_ + 1)
// ------------------------------------------------------------------ all nodes
LAW(long, I04_nodes_add_dim, (NodesVariables & n, std::unique_ptr<Node> d), n.NodesVariables::addNode(std::move(d)); return n.n_dim_, return n.n_dim_ + d->length_)
LAW(B, I04_nodes_add_bounds, (NodesVariables & n, std::unique_ptr<Node> d), n.NodesVariables::addNode(std::move(d)); return n.bounds_, B o = n.bounds_; for (const auto& v : d->vars_) for (const auto& b : v->bounds_) o.push_back(b); return o)
LAWP(long, I04_nodes_add_index, (NodesVariables & n, std::unique_ptr<Node> d, long i), 0 <= i && i < (long)d->vars_.size(), n.NodesVariables::addNode(std::move(d)); return n.nodes_.back()->vars_[i]->index_, return d->vars_[i]->index_ + n.n_dim_)
LAW(V, I04_nodes_set_whole, (NodesVariables & n, const V& x), n.NodesVariables::setVariables(x); return n.NodesVariables::getValues(), return x)
LAWP(double, I04_nodes_set_node, (NodesVariables & n, const V& x, long a, long i, long k), 0 <= a && a < (long)n.nodes_.size() && 0 <= i && i < (long)n.nodes_[a]->vars_.size() && 0 <= k && k < n.nodes_[a]->vars_[i]->values_.size() && 0 <= n.nodes_[a]->vars_[i]->index_ && n.nodes_[a]->vars_[i]->index_ + n.nodes_[a]->vars_[i]->values_.size() <= x.size(),
     n.NodesVariables::setVariables(x); return n.nodes_[a]->vars_[i]->values_[k], return x[n.nodes_[a]->vars_[i]->index_ + k])
LAW(B, I04_nodes_bounds, (const NodesVariables& n), return n.NodesVariables::getBounds(), return n.bounds_)
LAW(V, I04_nodes_values, (const NodesVariables& n), return n.NodesVariables::getValues(), return n.values_)
LAW(long, I04_nodes_observers_calls, (NodesVariables & n), n.NodesVariables::updateObservers(); return 0, for (auto& o : n.observers_) o->updateNodes(); return 0)
LAW(const NodesVariables*, I04_nodes_add_parent, (NodesVariables & n, std::unique_ptr<Node> d), n.NodesVariables::addNode(std::move(d)); return n.nodes_.back()->parent_, return &n)
LAW(long, I04_nodes_add_count, (NodesVariables & n, std::unique_ptr<Node> d), n.NodesVariables::addNode(std::move(d)); return n.nodes_.size(), return n.nodes_.size() + 1)
LAW(long, I04_nodes_dim, (const NodesVariables& n), return n.NodesVariables::getDim(), return n.n_dim_)
LAW(std::size_t, I04_nodes_hash, (NodesVariables & n, const V& x), n.NodesVariables::setVariables(x); return n.NodesVariables::getHash(), return trajopt_common::getHash(&n, x))
LAW(std::vector<std::shared_ptr<const Node>>, I04_nodes_list, (const NodesVariables& n), return n.getNodes(), std::vector<std::shared_ptr<const Node>> o; for (auto& d : n.nodes_) o.push_back(d); return o)
LAWP(bool, I04_node_has, (Node & n, const std::string& a, double x, Bounds b), b.lower_ <= b.upper_, n.addVar(a, x, b); return n.hasVar(a), return true)
LAWP(std::shared_ptr<const Var>, I04_node_get, (Node & n, const std::string& a, double x, Bounds b), b.lower_ <= b.upper_, n.addVar(a, x, b); return n.getVar(a), n.addVar(a, x, b); return n.vars_.back())
LAWP(bool, I04_node_has_vector, (Node & n, const std::string& a, const N& c, const V& x, const B& b), c.size() == b.size() && (long)c.size() == x.size(), n.addVar(a, c, x, b); return n.hasVar(a), return true)
inline std::vector<std::unique_ptr<Node>> one(std::unique_ptr<Node> d) { std::vector<std::unique_ptr<Node>> o; o.push_back(std::move(d)); return o; }
LAW(long, I04_nodes_new_rows, (std::unique_ptr<Node> d), NodesVariables n("v", one(std::move(d))); return n.rows_, return d->length_)
LAW(V, I04_nodes_new_values, (std::unique_ptr<Node> d), NodesVariables n("v", one(std::move(d))); return n.values_, return d->Node::getValues())
LAW(B, I04_nodes_new_bounds, (std::unique_ptr<Node> d), NodesVariables n("v", one(std::move(d))); return n.bounds_, return d->Node::getBounds())
LAW(long, I04_nodes_set_observers_calls, (NodesVariables & n, const V& x), n.NodesVariables::setVariables(x); return 0, for (auto& o : n.observers_) o->updateNodes(); return 0)
LAW(long, I04_nodes_observer_added, (NodesVariables & n, std::shared_ptr<NodesObserver> o), n.NodesVariables::addObserver(o); return n.observers_.size(), return n.observers_.size() + 1)
}  // namespace spec
