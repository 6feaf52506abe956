// Reference meaning of trajopt_ifopt/core/bounds and the bound errors of trajopt_ifopt/utils/ifopt_utils
#include <bits/stdc++.h>
#define private public
#define protected public
#include <trajopt_ifopt/core/bounds.h>
#include <trajopt_ifopt/utils/ifopt_utils.h>
namespace spec
{
using namespace trajopt_ifopt;
using V = Eigen::VectorXd;
#define LAW(ret, name, params, lhs, rhs)                                                                                \
  ret lhs_##name params { lhs; }                                                                                        \
  ret rhs_##name params { rhs; }
#define LAWP(ret, name, params, pre, lhs, rhs)                                                                          \
  ret lhs_##name params { if (!(pre)) throw 0; lhs; }                                                                   \
  ret rhs_##name params { if (!(pre)) throw 0; rhs; }
#define SAME (x.size() == (long)b.size() && out.size() == x.size())
inline bool bounded(double v) { return std::isfinite(v) && v < 1e20 && v > -1e20; }
inline BoundsType shape(double l, double u)
{
  const bool hl = bounded(l), hu = bounded(u);
  if (hl && hu)
    return std::abs(u - l) < 1e-8 ? BoundsType::kEquality : BoundsType::kRangeBound;
  if (hl)
    return BoundsType::kLowerBound;
  if (hu)
    return BoundsType::kUpperBound;
  return BoundsType::kUnbounded;
}
inline double error(double v, double l, double u) { return v < l ? v - l : v > u ? v - u : 0.0; }
LAW(BoundsType, I02_type_new, (double l, double u), Bounds b(l, u); return b.getType(), return shape(l, u))
LAW(BoundsType, I02_type_set, (Bounds & b, double l, double u), b.set(l, u); return b.getType(), return shape(l, u))
LAW(BoundsType, I02_type_set_lower, (Bounds & b, double l), b.setLower(l); return b.getType(), return shape(l, b.upper_))
LAW(BoundsType, I02_type_set_upper, (Bounds & b, double u), b.setUpper(u); return b.getType(), return shape(b.lower_, u))
LAW(BoundsType, I02_type_plus, (Bounds & b, double d), b += d; return b.getType(), return shape(b.lower_ + d, b.upper_ + d))
LAW(BoundsType, I02_type_minus, (Bounds & b, double d), b -= d; return b.getType(), return shape(b.lower_ - d, b.upper_ - d))
LAW(double, I02_lower_new, (double l, double u), Bounds b(l, u); return b.getLower(), return l)
LAW(double, I02_upper_new, (double l, double u), Bounds b(l, u); return b.getUpper(), return u)
LAW(double, I02_lower_set, (Bounds & b, double l, double u), b.set(l, u); return b.getLower(), return l)
LAW(double, I02_upper_set, (Bounds & b, double l, double u), b.set(l, u); return b.getUpper(), return u)
LAW(double, I02_lower_set_lower, (Bounds & b, double l), b.setLower(l); return b.getLower(), return l)
LAW(double, I02_upper_set_lower, (Bounds & b, double l), const double u = b.upper_; b.setLower(l); return b.getUpper() - u, return 0)
LAW(double, I02_lower_set_upper, (Bounds & b, double u), const double l = b.lower_; b.setUpper(u); return b.getLower() - l, return 0)
LAW(double, I02_upper_set_upper, (Bounds & b, double u), b.setUpper(u); return b.getUpper(), return u)
LAW(double, I02_lower_plus, (Bounds & b, double d), b += d; return b.getLower(), return b.lower_ + d)
LAW(double, I02_upper_plus, (Bounds & b, double d), b += d; return b.getUpper(), return b.upper_ + d)
LAW(double, I02_lower_minus, (Bounds & b, double d), b -= d; return b.getLower(), return b.lower_ - d)
LAW(double, I02_upper_minus, (Bounds & b, double d), b -= d; return b.getUpper(), return b.upper_ - d)
// signed error and violation of an interval
LAWP(double, I02_error, (V & out, const V& x, const std::vector<Bounds>& b, int i), SAME, calcBoundsErrors(out, x, b); return out[i],
     V o(x.size()); for (int k = 0; k < x.size(); ++k) o[k] = error(x[k], b[k].lower_, b[k].upper_); return o[i])
LAWP(double, I02_violation, (V & out, const V& x, const std::vector<Bounds>& b, int i), SAME, calcBoundsViolations(out, x, b); return out[i],
     V o(x.size()); for (int k = 0; k < x.size(); ++k) o[k] = std::abs(error(x[k], b[k].lower_, b[k].upper_)); return o[i])
LAWP(double, I02_closest, (const V& x, const std::vector<Bounds>& b, int i), x.size() == (long)b.size(), return getClosestValidPoint(x, b)[i],
     V o(x.size()); for (int k = 0; k < x.size(); ++k) o[k] = std::min(std::max(x[k], b[k].lower_), b[k].upper_); return o[i])
LAWP(long, I02_closest_size, (const V& x, const std::vector<Bounds>& b), x.size() == (long)b.size(), return getClosestValidPoint(x, b).size(), return x.size())
}  // namespace spec
