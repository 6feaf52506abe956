// Reference meaning of trajopt_sco/solver_utils and the index helpers of solver_interface
#include <bits/stdc++.h>
#define private public
#define protected public
#include <trajopt_sco/solver_utils.hpp>
namespace spec
{
using namespace sco;
using SV = Eigen::SparseVector<double>;
using SM = Eigen::SparseMatrix<double>;
using V = Eigen::VectorXd;
using M = Eigen::MatrixXd;
#define LAW(ret, name, params, lhs, rhs)                                                                                \
  ret lhs_##name params { lhs; }                                                                                        \
  ret rhs_##name params { rhs; }
inline int at(const VarVector& v, std::size_t i) { return static_cast<int>(v[i].var_rep->index); }
inline double total(const AffExpr& e, int j)
{
  double s = 0;
  for (std::size_t i = 0; i < e.coeffs.size(); ++i) if (at(e.vars, i) == j) s += e.coeffs[i];
  return s;
}
inline void outside(const AffExpr& e, Eigen::Index n)
{
  for (std::size_t i = 0; i < e.coeffs.size(); ++i) if (at(e.vars, i) >= n) throw std::runtime_error("");
}
// an affine expression as a vector: every coefficient at its variable, repeats added up
LAW(double, S15_aff, (const AffExpr& e, const Eigen::Index& n, int j), SV v; exprToEigen(e, v, n); return V(v)[j], outside(e, n); return total(e, j))
LAW(long, S15_aff_size, (const AffExpr& e, const Eigen::Index& n), SV v; exprToEigen(e, v, n); return v.size(), outside(e, n); return n)
// a quadratic expression: x'Mx is the quadratic part (twice that when halved), both halves filled alike
LAW(double, S15_quad_matrix, (const QuadExpr& e, const Eigen::Index& n, bool h, bool d, int r, int c), SM m; V v; exprToEigen(e, m, v, n, h, d); return M(m)(r, c),
    outside(e.affexpr, n); double s = 0;
    for (std::size_t i = 0; i < e.coeffs.size(); ++i)
    {
      if (at(e.vars1, i) == r && at(e.vars2, i) == c) s += e.coeffs[i];
      if (at(e.vars1, i) == c && at(e.vars2, i) == r) s += e.coeffs[i];
    } return h ? s : s / 2)
LAW(double, S15_quad_vector, (const QuadExpr& e, const Eigen::Index& n, bool h, bool d, int j), SM m; V v; exprToEigen(e, m, v, n, h, d); return v[j], outside(e.affexpr, n); return total(e.affexpr, j))
// rows of affine expressions: coefficients at (row, variable), constants moved to the right-hand side
LAW(double, S15_rows_matrix, (const AffExprVector& e, Eigen::Index n, int r, int c), SM m; V v; exprToEigen(e, m, v, n); return M(m)(r, c),
    for (std::size_t k = 0; k < e.size(); ++k) outside(e[k], n); return total(e[r], c))
LAW(double, S15_rows_vector, (const AffExprVector& e, Eigen::Index n, int r), SM m; V v; exprToEigen(e, m, v, n); return v[r],
    for (std::size_t k = 0; k < e.size(); ++k) outside(e[k], n); return -e[r].constant)
LAW(double, S15_triplets, (const IntVec& i, const IntVec& j, const DblVec& x, SM& m, int r, int c), tripletsToEigen(i, j, x, m); return M(m)(r, c),
    double s = 0; for (std::size_t k = 0; k < x.size(); ++k) if (i[k] == r && j[k] == c) s += x[k]; return s)
LAW(IntVec, S15_from_rows, (const SM& m, IntVec& i, IntVec& j, DblVec& x), eigenToTriplets(m, i, j, x); return i, IntVec o = i; for (int k = 0; k < m.outerSize(); ++k) for (SM::InnerIterator it(m, k); it; ++it) o.push_back(it.row()); return o)
LAW(IntVec, S15_from_cols, (const SM& m, IntVec& i, IntVec& j, DblVec& x), eigenToTriplets(m, i, j, x); return j, IntVec o = j; for (int k = 0; k < m.outerSize(); ++k) for (SM::InnerIterator it(m, k); it; ++it) o.push_back(it.col()); return o)
LAW(DblVec, S15_from_values, (const SM& m, IntVec& i, IntVec& j, DblVec& x), eigenToTriplets(m, i, j, x); return x, DblVec o = x; for (int k = 0; k < m.outerSize(); ++k) for (SM::InnerIterator it(m, k); it; ++it) o.push_back(it.value()); return o)
// index lists
LAW(SizeTVec, S15_vars_size, (const VarVector& v, SizeTVec& o), vars2inds(v, o); return o, SizeTVec r; for (const Var& x : v) r.push_back(x.var_rep->index); return r)
LAW(IntVec, S15_vars_int, (const VarVector& v, IntVec& o), vars2inds(v, o); return o, IntVec r; for (const Var& x : v) r.push_back(x.var_rep->index); return r)
LAW(SizeTVec, S15_cnts_size, (const CntVector& v, SizeTVec& o), cnts2inds(v, o); return o, SizeTVec r; for (const Cnt& x : v) r.push_back(x.cnt_rep->index); return r)
LAW(IntVec, S15_cnts_int, (const CntVector& v, IntVec& o), cnts2inds(v, o); return o, IntVec r; for (const Cnt& x : v) r.push_back(x.cnt_rep->index); return r)
// merging repeated indices keeps every index's total
LAW(double, S15_simplify_total, (IntVec & i, DblVec& x, int j), simplify2(i, x); double s = 0; for (std::size_t k = 0; k < i.size(); ++k) if (i[k] == j) s += x[k]; return s,
    double s = 0; for (std::size_t k = 0; k < i.size(); ++k) if (i[k] == j) s += x[k]; return s)
LAW(bool, S15_simplify_sorted, (IntVec & i, DblVec& x, std::size_t k), simplify2(i, x); if (!(k + 1 < i.size())) throw 0; return i[k] < i[k + 1], simplify2(i, x); if (!(k + 1 < i.size())) throw 0; return true)
LAW(bool, S15_simplify_sizes, (IntVec & i, DblVec& x), simplify2(i, x); return i.size() == x.size(), return true)
// compressed columns
template <int U, typename T>
struct Csc { std::vector<T> rows, cols; DblVec vals; };
template <typename T> inline std::vector<T> ints(const int* p, long n) { std::vector<T> o; for (long i = 0; i < n; ++i) o.push_back(static_cast<T>(p[i])); return o; }
LAW(std::vector<long>, S15_csc_rows, (SM & m), std::vector<long> r; std::vector<long> c; DblVec v; (eigenToCSC<0, long>(m, r, c, v)); return r, m.makeCompressed(); return ints<long>(m.innerIndexPtr(), m.nonZeros()))
LAW(std::vector<long>, S15_csc_cols, (SM & m), std::vector<long> r; std::vector<long> c; DblVec v; (eigenToCSC<0, long>(m, r, c, v)); return c, m.makeCompressed(); auto o = ints<long>(m.outerIndexPtr(), m.outerSize()); o.push_back(m.nonZeros()); return o)
LAW(DblVec, S15_csc_vals, (SM & m), std::vector<long> r; std::vector<long> c; DblVec v; (eigenToCSC<0, long>(m, r, c, v)); return v, m.makeCompressed(); DblVec o; for (long i = 0; i < m.nonZeros(); ++i) o.push_back(m.valuePtr()[i]); return o)
LAW(std::vector<int>, S15_csc_int_rows, (SM & m), std::vector<int> r; std::vector<int> c; DblVec v; (eigenToCSC<0, int>(m, r, c, v)); return r, m.makeCompressed(); return ints<int>(m.innerIndexPtr(), m.nonZeros()))
LAW(std::vector<int>, S15_csc_int_cols, (SM & m), std::vector<int> r; std::vector<int> c; DblVec v; (eigenToCSC<0, int>(m, r, c, v)); return c, m.makeCompressed(); auto o = ints<int>(m.outerIndexPtr(), m.outerSize()); o.push_back(m.nonZeros()); return o)
LAW(std::vector<int>, S15_csc_up_rows, (SM & m), std::vector<int> r; std::vector<int> c; DblVec v; (eigenToCSC<Eigen::Upper, int>(m, r, c, v)); return r, SM u; u = m.triangularView<Eigen::Upper>(); u.makeCompressed(); return ints<int>(u.innerIndexPtr(), u.nonZeros()))
LAW(std::vector<int>, S15_csc_up_cols, (SM & m), std::vector<int> r; std::vector<int> c; DblVec v; (eigenToCSC<Eigen::Upper, int>(m, r, c, v)); return c, SM u; u = m.triangularView<Eigen::Upper>(); u.makeCompressed(); auto o = ints<int>(u.outerIndexPtr(), u.outerSize()); o.push_back(u.nonZeros()); return o)
LAW(DblVec, S15_csc_up_vals, (SM & m), std::vector<int> r; std::vector<int> c; DblVec v; (eigenToCSC<Eigen::Upper, int>(m, r, c, v)); return v, SM u; u = m.triangularView<Eigen::Upper>(); u.makeCompressed(); DblVec o; for (long i = 0; i < u.nonZeros(); ++i) o.push_back(u.valuePtr()[i]); return o)
}  // namespace spec
