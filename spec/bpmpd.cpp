// Reference meaning of the BPMPD back end and of the solver interface
#include <bits/stdc++.h>
#define private public
#define protected public
#include <trajopt_sco/solver_interface.hpp>
#include <trajopt_sco/bpmpd_interface.hpp>
#include <trajopt_sco/bpmpd_io.hpp>
namespace spec
{
using namespace sco;
using BM = BPMPDModel;
using X = DblVec;
using S = std::string;
static const double BIG = 1e30;
#define LAW(ret, name, params, lhs, rhs)                                                                                \
  ret lhs_##name params { lhs; }                                                                                        \
  ret rhs_##name params { rhs; }
#define LAWP(ret, name, params, pre, lhs, rhs)                                                                          \
  ret lhs_##name params { if (!(pre)) throw 0; lhs; }                                                                   \
  ret rhs_##name params { if (!(pre)) throw 0; rhs; }
// ------------------------------------------------------------------ S13: objective replaced
LAW(QuadExpr, S13_affine_replaces, (BM & m, const AffExpr& e), m.BM::setObjective(e); return m.m_objective, return QuadExpr(e))
LAW(QuadExpr, S13_quadratic_replaces, (BM & m, const QuadExpr& e), m.BM::setObjective(e); return m.m_objective, return e)
LAW(QuadExpr, S13_sequence, (BM & m, const QuadExpr& q, const AffExpr& e), m.BM::setObjective(q); m.BM::setObjective(e); return m.m_objective, return QuadExpr(e))
// ------------------------------------------------------------------ S11: tables
#define VARS (m.m_lbs.size() == m.m_vars.size() && m.m_ubs.size() == m.m_vars.size())
#define CNTS (m.m_cntExprs.size() == m.m_cnts.size() && m.m_cntTypes.size() == m.m_cnts.size())
LAW(long, S11_addvar_size, (BM & m, const S& n), m.BM::addVar(n); return m.m_vars.size(), return m.m_vars.size() + 1)
LAW(X, S11_addvar_lower, (BM & m, const S& n), m.BM::addVar(n); return m.m_lbs, X o = m.m_lbs; o.push_back(-BIG); return o)
LAW(X, S11_addvar_upper, (BM & m, const S& n), m.BM::addVar(n); return m.m_ubs, X o = m.m_ubs; o.push_back(BIG); return o)
LAW(long, S11_addvar_index, (BM & m, const S& n), Var v = m.BM::addVar(n); return v.var_rep->index, return m.m_vars.size())
LAW(bool, S11_addvar_live, (BM & m, const S& n), Var v = m.BM::addVar(n); return v.var_rep->removed, return false)
LAW(S, S11_addvar_name, (BM & m, const S& n), Var v = m.BM::addVar(n); return v.var_rep->name, return n)
LAW(const VarRep*, S11_addvar_same, (BM & m, const S& n), Var v = m.BM::addVar(n); return v.var_rep.get(), m.BM::addVar(n); return m.m_vars.back().var_rep.get())
LAWP(const VarRep*, S11_addvar_keeps, (BM & m, const S& n, long i), 0 <= i && i < (long)m.m_vars.size(), m.BM::addVar(n); return m.m_vars[i].var_rep.get(), return m.m_vars[i].var_rep.get())
#define ADDCNT(name, call, kind)                                                                                        \
LAW(long, S11_##name##_size, (BM & m, const AffExpr& e, const S& n), m.BM::call(e, n); return m.m_cnts.size(), return m.m_cnts.size() + 1)   \
LAW(AffExprVector, S11_##name##_exprs, (BM & m, const AffExpr& e, const S& n), m.BM::call(e, n); return m.m_cntExprs, auto o = m.m_cntExprs; o.push_back(e); return o)   \
LAW(ConstraintTypeVector, S11_##name##_types, (BM & m, const AffExpr& e, const S& n), m.BM::call(e, n); return m.m_cntTypes, auto o = m.m_cntTypes; o.push_back(kind); return o)   \
LAW(long, S11_##name##_index, (BM & m, const AffExpr& e, const S& n), Cnt v = m.BM::call(e, n); return v.cnt_rep->index, return m.m_cnts.size())   \
LAW(bool, S11_##name##_live, (BM & m, const AffExpr& e, const S& n), Cnt v = m.BM::call(e, n); return v.cnt_rep->removed, return false)   \
LAW(const CntRep*, S11_##name##_same, (BM & m, const AffExpr& e, const S& n), Cnt v = m.BM::call(e, n); return v.cnt_rep.get(), m.BM::call(e, n); return m.m_cnts.back().cnt_rep.get())  \
LAWP(const CntRep*, S11_##name##_keeps, (BM & m, const AffExpr& e, const S& n, long i), 0 <= i && i < (long)m.m_cnts.size(), m.BM::call(e, n); return m.m_cnts[i].cnt_rep.get(), return m.m_cnts[i].cnt_rep.get())
ADDCNT(addeq, addEqCnt, EQ)
ADDCNT(addineq, addIneqCnt, INEQ)
LAWP(bool, S11_remove_var, (BM & m, const VarVector& v, long i), 0 <= i && i < (long)v.size(), m.BM::removeVars(v); return v[i].var_rep->removed, return true)
LAWP(bool, S11_remove_cnt, (BM & m, const CntVector& v, long i), 0 <= i && i < (long)v.size(), m.BM::removeCnts(v); return v[i].cnt_rep->removed, return true)
// compaction: the k-th survivor sits at k with its own data
inline long live(const VarVector& v, long i) { long s = 0; for (long k = 0; k < i; ++k) if (!v[k].var_rep->removed) ++s; return s; }
inline long live(const CntVector& v, long i) { long s = 0; for (long k = 0; k < i; ++k) if (!v[k].cnt_rep->removed) ++s; return s; }
#define SURVIVES (VARS && CNTS && 0 <= i && i < (long)m.m_vars.size() && !m.m_vars[i].var_rep->removed)
#define CSURVIVES (VARS && CNTS && 0 <= i && i < (long)m.m_cnts.size() && !m.m_cnts[i].cnt_rep->removed)
LAWP(long, S11_update_vars, (BM & m), VARS && CNTS, m.BM::update(); return m.m_vars.size(), return live(m.m_vars, m.m_vars.size()))
LAWP(long, S11_update_lowers, (BM & m), VARS && CNTS, m.BM::update(); return m.m_lbs.size(), return live(m.m_vars, m.m_vars.size()))
LAWP(long, S11_update_uppers, (BM & m), VARS && CNTS, m.BM::update(); return m.m_ubs.size(), return live(m.m_vars, m.m_vars.size()))
LAWP(long, S11_update_cnts, (BM & m), VARS && CNTS, m.BM::update(); return m.m_cnts.size(), return live(m.m_cnts, m.m_cnts.size()))
LAWP(long, S11_update_exprs, (BM & m), VARS && CNTS, m.BM::update(); return m.m_cntExprs.size(), return live(m.m_cnts, m.m_cnts.size()))
LAWP(long, S11_update_types, (BM & m), VARS && CNTS, m.BM::update(); return m.m_cntTypes.size(), return live(m.m_cnts, m.m_cnts.size()))
LAWP(double, S11_update_lower, (BM & m, long i), SURVIVES, long k = live(m.m_vars, i); m.BM::update(); return m.m_lbs[k], return m.m_lbs[i])
LAWP(double, S11_update_upper, (BM & m, long i), SURVIVES, long k = live(m.m_vars, i); m.BM::update(); return m.m_ubs[k], return m.m_ubs[i])
LAWP(const VarRep*, S11_update_var, (BM & m, long i), SURVIVES, long k = live(m.m_vars, i); m.BM::update(); return m.m_vars[k].var_rep.get(), return m.m_vars[i].var_rep.get())
LAWP(long, S11_update_var_index, (BM & m, long i), SURVIVES, VarRep* r = m.m_vars[i].var_rep.get(); m.BM::update(); return r->index, return live(m.m_vars, i))
LAWP(double, S11_update_constant, (BM & m, long i), CSURVIVES, long k = live(m.m_cnts, i); m.BM::update(); return m.m_cntExprs[k].constant, return m.m_cntExprs[i].constant)
LAWP(long, S11_update_type, (BM & m, long i), CSURVIVES, long k = live(m.m_cnts, i); m.BM::update(); return m.m_cntTypes[k], return m.m_cntTypes[i])
LAWP(const CntRep*, S11_update_cnt, (BM & m, long i), CSURVIVES, long k = live(m.m_cnts, i); m.BM::update(); return m.m_cnts[k].cnt_rep.get(), return m.m_cnts[i].cnt_rep.get())
LAWP(long, S11_update_cnt_index, (BM & m, long i), CSURVIVES, CntRep* r = m.m_cnts[i].cnt_rep.get(); m.BM::update(); return r->index, return live(m.m_cnts, i))
LAWP(double, S11_bounds_lower, (BM & m, const VarVector& v, const X& lo, const X& up, double l, double u), v.size() == 1 && lo.size() == 1 && up.size() == 1, m.BM::setVarBounds(v, lo, up); return m.m_lbs[v[0].var_rep->index], return lo[0])
LAWP(double, S11_bounds_upper, (BM & m, const VarVector& v, const X& lo, const X& up, double l, double u), v.size() == 1 && lo.size() == 1 && up.size() == 1, m.BM::setVarBounds(v, lo, up); return m.m_ubs[v[0].var_rep->index], return up[0])
// ------------------------------------------------------------------ S14: names and types
LAW(ModelType::Value, S14_parse, (const S& s), return ModelType(s).value_, for (unsigned i = 0; i < ModelType::MODEL_NAMES_.size(); ++i) if (s == ModelType::MODEL_NAMES_[i]) return (ModelType::Value)i; throw std::runtime_error("x"))
LAW(int, S14_int, (const ModelType& t), return (int)t, return t.value_)
LAW(bool, S14_equal_value, (const ModelType& t, ModelType::Value v), return t == v, return t.value_ == v)
LAW(bool, S14_equal, (const ModelType& t, const ModelType& v), return t == v, return t.value_ == v.value_)
LAW(bool, S14_unequal, (const ModelType& t, const ModelType& v), return t != v, return t.value_ != v.value_)
LAW(ModelType::Value, S14_from_value, (ModelType::Value v), return ModelType(v).value_, return v)
LAW(ModelType::Value, S14_from_int, (int v), return ModelType(v).value_, return (ModelType::Value)v)
LAW(ModelType::Value, S14_default, (), return ModelType().value_, return ModelType::AUTO_SOLVER)
LAW(int, S14_print_calls, (std::ostream & o, const ModelType& t), o << t; return 0, if (t.value_ >= ModelType::MODEL_NAMES_.size()) throw std::runtime_error("x"); o << ModelType::MODEL_NAMES_[t.value_]; return 0)
// the text of a type is its own
#define NAME(lower, upper)                                                                                              \
  LAW(int, S14_name_##lower, (), return ModelType(S(#upper)).value_, return ModelType::upper)                           \
  LAW(bool, S14_text_##lower, (), return ModelType::MODEL_NAMES_[ModelType::upper] == #upper, return true)
NAME(gurobi, GUROBI)
NAME(osqp, OSQP)
NAME(qpoases, QPOASES)
NAME(bpmpd, BPMPD)
NAME(auto, AUTO_SOLVER)
LAW(long, S14_names, (), return ModelType::MODEL_NAMES_.size(), return ModelType::AUTO_SOLVER + 1)
// choice of the back end: every back end is compiled in for the analysis
}  // namespace spec
namespace sco { Model::Ptr createGurobiModel(); Model::Ptr createOSQPModel(const ModelConfig::ConstPtr& config); Model::Ptr createBPMPDModel(); Model::Ptr createqpOASESModel(); }
namespace spec
{
LAW(int, S14_make_calls, (const ModelType& t, const ModelConfig::ConstPtr& cfg), if ((int)t.value_ < 0 || t.value_ >= ModelType::AUTO_SOLVER) throw 0; createModel(t, cfg); return 0,
  if ((int)t.value_ < 0 || t.value_ >= ModelType::AUTO_SOLVER) throw 0; if (t.value_ == ModelType::GUROBI) createGurobiModel(); else if (t.value_ == ModelType::OSQP) createOSQPModel(cfg); else if (t.value_ == ModelType::BPMPD) createBPMPDModel(); else if (t.value_ == ModelType::QPOASES) createqpOASESModel(); else throw 0; return 0)
LAW(Model::Ptr, S14_make_gurobi, (const ModelConfig::ConstPtr& c), return createModel(ModelType(ModelType::GUROBI), c), return createGurobiModel())
LAW(Model::Ptr, S14_make_osqp, (const ModelConfig::ConstPtr& c), return createModel(ModelType(ModelType::OSQP), c), return createOSQPModel(c))
LAW(Model::Ptr, S14_make_qpoases, (const ModelConfig::ConstPtr& c), return createModel(ModelType(ModelType::QPOASES), c), return createqpOASESModel())
LAW(Model::Ptr, S14_make_bpmpd, (const ModelConfig::ConstPtr& c), return createModel(ModelType(ModelType::BPMPD), c), return createBPMPDModel())
LAW(Model::Ptr, S14_auto, (const ModelConfig::ConstPtr& c), return createModel(ModelType(ModelType::AUTO_SOLVER), c),
  const char* e = getenv("TRAJOPT_CONVEX_SOLVER"); if (e != nullptr && S(e) != "AUTO_SOLVER") return createModel(ModelType(S(e)), c); return createModel(availableSolvers()[0], c))
using MT = std::vector<ModelType>;
LAW(long, S14_available_size, (), return availableSolvers().size(), return 4)
LAWP(int, S14_available, (long i), 0 <= i && i < 4, return availableSolvers()[i].value_, return i)
// with no back end compiled in: whatever is asked for, the caller is told
LAW(long, S14none_available, (), return availableSolvers().size(), return 0)
LAW(Model::Ptr, S14none_make, (const ModelConfig::ConstPtr& c, const ModelType& t), return createModel(t, c), throw 0)
LAW(Model::Ptr, S14none_auto, (const ModelConfig::ConstPtr& c), return createModel(ModelType(ModelType::AUTO_SOLVER), c), throw 0)
// with one back end compiled in: that one or an error
#define ONE(name, type, make)                                                                                                                              \
  LAW(long, S14##name##_available_size, (), return availableSolvers().size(), return 1)                                                                     \
  LAW(int, S14##name##_available, (), return availableSolvers()[0].value_, return ModelType::type)                                                          \
  LAW(Model::Ptr, S14##name##_auto, (const ModelConfig::ConstPtr& c), if (getenv("TRAJOPT_CONVEX_SOLVER") != nullptr) throw 0; return createModel(ModelType(ModelType::AUTO_SOLVER), c),  \
      if (getenv("TRAJOPT_CONVEX_SOLVER") != nullptr) throw 0; return make)                                                                                 \
  LAW(Model::Ptr, S14##name##_make, (const ModelConfig::ConstPtr& c, const ModelType& t), if (t.value_ == ModelType::AUTO_SOLVER) throw 0; return createModel(t, c), \
      if (t.value_ == ModelType::type) return make; throw 0)
ONE(bpmpd, BPMPD, createBPMPDModel())
ONE(osqp, OSQP, createOSQPModel(c))
ONE(qpoases, QPOASES, createqpOASESModel())
ONE(gurobi, GUROBI, createGurobiModel())
}

// ------------------------------------------------------------------ S09: what the solver is given, and what becomes of its answer
namespace sco { extern int gPipeIn_, gPipeOut_; }
namespace spec
{
struct Wire { bpmpd_io::bpmpd_input sent; bpmpd_io::bpmpd_output reply; };
extern Wire wire;
void model_send(int, bpmpd_io::bpmpd_input& x, bpmpd_io::SerMode mode) { if (mode == bpmpd_io::SER) wire.sent = x; else x = wire.sent; }
void model_receive(int, bpmpd_io::bpmpd_output& x, bpmpd_io::SerMode mode) { if (mode == bpmpd_io::SER) wire.reply = x; else x = wire.reply; }
#define SENT(name, ret, what, rhs) LAW(ret, S09_##name, (BM & m), m.BM::optimize(); return what, m.BM::update(); rhs)
#define SENTP(name, ret, params, pre, what, rhs) LAWP(ret, S09_##name, params, pre, m.BM::optimize(); return what, m.BM::update(); rhs)
SENT(rows, long, wire.sent.m, return m.m_cnts.size())
SENT(cols, long, wire.sent.n, return m.m_vars.size())
SENT(qn, long, wire.sent.qn, return m.m_vars.size())
SENT(nz, long, (long)wire.sent.nz - (long)wire.sent.acolnzs.size(), return 0)
SENT(nz_rows, long, (long)wire.sent.acolidx.size() - (long)wire.sent.acolnzs.size(), return 0)
SENT(qnz, long, (long)wire.sent.qnz - (long)wire.sent.qcolnzs.size(), return 0)
SENT(qnz_rows, long, (long)wire.sent.qcolidx.size() - (long)wire.sent.qcolnzs.size(), return 0)
SENT(col_counts, long, wire.sent.acolcnt.size(), return m.m_vars.size())
SENT(qcol_counts, long, wire.sent.qcolcnt.size(), return m.m_vars.size())
SENT(rhs, X, wire.sent.rhs, X o(m.m_cnts.size()); for (std::size_t i = 0; i < o.size(); ++i) o[i] = -m.m_cntExprs[i].constant; return o)
SENT(lower, X, wire.sent.lbound, X o(m.m_cnts.size() + m.m_vars.size()); for (std::size_t i = 0; i < m.m_vars.size(); ++i) o[i] = fmax(m.m_lbs[i], -BIG);
     for (std::size_t i = 0; i < m.m_cnts.size(); ++i) o[m.m_vars.size() + i] = m.m_cntTypes[i] == INEQ ? -BIG : 0; return o)
SENT(upper, X, wire.sent.ubound, X o(m.m_cnts.size() + m.m_vars.size()); for (std::size_t i = 0; i < m.m_vars.size(); ++i) o[i] = fmin(m.m_ubs[i], BIG);
     for (std::size_t i = 0; i < m.m_cnts.size(); ++i) o[m.m_vars.size() + i] = 0; return o)
SENT(linear, X, wire.sent.obj, X o(m.m_vars.size(), 0); for (std::size_t i = 0; i < m.m_objective.affexpr.coeffs.size(); ++i) o[m.m_objective.affexpr.vars[i].var_rep->index] += m.m_objective.affexpr.coeffs[i]; return o)
// column-compressed matrices entry by entry; the arrays count rows from one
inline long first(const std::vector<int>& cnt, long j) { long s = 0; for (long k = 0; k < j; ++k) s += cnt[k]; return s; }
inline double entry(const std::vector<int>& cnt, const std::vector<int>& idx, const X& val, long i, long j)
{
  double s = 0;
  const long b = first(cnt, j);
  for (long k = 0; k < cnt[j]; ++k) if (idx[b + k] == i + 1) s += val[b + k];
  return s;
}
#define IN_A (0 <= i && i < (long)m.m_cnts.size() && 0 <= j && j < (long)m.m_vars.size())
#define IN_Q (0 <= i && i < (long)m.m_vars.size() && 0 <= j && j < (long)m.m_vars.size())
LAW(double, S09_matrix, (BM & m, long i, long j), m.BM::optimize(); if (!IN_A) throw 0; return entry(wire.sent.acolcnt, wire.sent.acolidx, wire.sent.acolnzs, i, j),
    m.BM::update(); if (!IN_A) throw 0; double s = 0; const AffExpr& e = m.m_cntExprs[i]; for (std::size_t k = 0; k < e.coeffs.size(); ++k) if ((long)e.vars[k].var_rep->index == j) s += e.coeffs[k]; return s)
// the lower triangle of Q (x'Qx / 2): entry (i, j), i >= j
LAW(double, S09_quadratic, (BM & m, long i, long j), m.BM::optimize(); if (!IN_Q) throw 0; return entry(wire.sent.qcolcnt, wire.sent.qcolidx, wire.sent.qcolnzs, i, j),
    m.BM::update(); if (!IN_Q) throw 0; double s = 0; const QuadExpr& e = m.m_objective; for (std::size_t k = 0; k < e.coeffs.size(); ++k) {
      const long a = e.vars1[k].var_rep->index; const long b = e.vars2[k].var_rep->index;
      if (i == j && a == i && b == i) s += 2 * e.coeffs[k];
      if (i > j && ((a == i && b == j) || (a == j && b == i))) s += e.coeffs[k]; } return s)
LAW(int, S16_status, (BM & m), return m.BM::optimize(), m.BM::update(); return wire.reply.code == 2 ? CVX_SOLVED : (wire.reply.code == 3 || wire.reply.code == 4) ? CVX_INFEASIBLE : CVX_FAILED)
LAWP(double, S16_solution, (BM & m, long i), 0 <= i, if (m.BM::optimize() != CVX_SOLVED) throw 0; return m.m_soln[i], m.BM::update(); if (wire.reply.code != 2) throw 0; return wire.reply.primal[i])
LAWP(double, S09_solution, (BM & m, long i), 0 <= i, if (m.BM::optimize() != CVX_SOLVED) throw 0; return m.m_soln[i], m.BM::update(); if (wire.reply.code != 2) throw 0; return wire.reply.primal[i])
LAW(X, S09_read_back, (const BM& m, const VarVector& v), return m.BM::getVarValues(v), X o(v.size()); for (std::size_t i = 0; i < v.size(); ++i) o[i] = m.m_soln[v[i].var_rep->index]; return o)
LAW(double, S09_read_back_one, (const BM& m, const Var& v), return m.Model::getVarValue(v), return static_cast<const Model&>(m).getVarValues(VarVector(1, v))[0])
LAW(VarVector, S09_vars, (const BM& m), return m.BM::getVars(), return m.m_vars)
}  // namespace spec
