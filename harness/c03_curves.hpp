#pragma once
#include <glog/logging.h>
#include <curves/PolynomialSplineScalarCurve.hpp>
#include <curves/PolynomialSplineVectorSpaceCurve.hpp>
#include "gen.hpp"
inline void curveHold(mon::Rng& r) {
  using namespace mon;
  using namespace curves;
  const double inf = std::numeric_limits<double>::infinity();
  const int n = r.chance(0.03) ? r.range(20, 60) : r.range(2, 8);
  const double t0 = gen::startTime(r);
  std::vector<double> t = gen::knotsAnySpacing(r, n, 0.2, 3.0, t0);
  std::vector<double> v = gen::values(r, n, 5.0);
  std::vector<Eigen::Vector3d> w;
  for (int i = 0; i < n; ++i) w.push_back(Eigen::Vector3d(v[i], r.value(5.0), r.value(5.0)));
  const double bc[4] = {r.value(3), r.value(3), r.value(3), r.value(3)};
  PolynomialSplineQuinticScalarCurve s;
  PolynomialSplineQuinticVector3Curve c;
  const bool bnd = r.chance(0.7);
  if (bnd) {
    s.fitCurve(t, v, bc[0], bc[1], bc[2], bc[3]);
    c.fitCurve(t, w, Eigen::Vector3d(bc[0], 1, 2), Eigen::Vector3d(bc[1], -1, 0.5), Eigen::Vector3d(bc[2], 0, 3), Eigen::Vector3d(bc[3], 2, 2));
  } else {
    s.fitCurve(t, v);
    c.fitCurve(t, w);
  }
  // Values at the boundary itself; the end is approached from outside, since computing
  // "time - start" may round to just before the end.
  const double e = s.getMaxTime();
  double mag = 200.0;
  for (double x : v) mag += 100 * std::fabs(x);
  auto S = [&](double time, int d) { double x = -1e99; bool ok = d == 0 ? s.evaluate(x, time) : s.evaluateDerivative(x, time, unsigned(d));
    MON_CHECK(ok, "scalar evaluate failed at " << time); return x; };
  auto V = [&](double time, int d) { Eigen::Vector3d x(-1e99, -1e99, -1e99); bool ok = d == 0 ? c.evaluate(x, time) : c.evaluateDerivative(x, time, unsigned(d));
    MON_CHECK(ok, "vector evaluate failed at " << time); return x; };
  const double sv0[3] = {v[0], bnd ? bc[0] : 0, bnd ? bc[1] : 0}, sv1[3] = {v[n - 1], bnd ? bc[2] : 0, bnd ? bc[3] : 0};
  for (int d = 0; d < 3; ++d) {
    const Eigen::Vector3d b = V(t0, d), f = V(e + 1.0, d);
    const double tol = 1e-9 * mag * (d == 0 ? 1 : d == 1 ? 10 : 100);
    for (double far : {0.0, 1e-9, 1e-3, 0.1, 1.0, 7.5, 100.0, 1e5, 1e15, 1e300, inf}) {
      MON_NEAR("scalar_before", S(t0 - far, d), sv0[d], tol, "derivative " << d << " " << far << " before the start " << t0);
      MON_NEAR("scalar_after", S(e + far, d), sv1[d], tol, "derivative " << d << " " << far << " after the end " << e);
      for (int i = 0; i < 3; ++i) {
        MON_NEAR("vector_before", V(t0 - far, d)(i), b(i), tol, "derivative " << d << " component " << i << " " << far << " before the start " << t0);
        MON_NEAR("vector_after", V(e + far, d)(i), f(i), tol, "derivative " << d << " component " << i << " " << far << " after the end " << e);
      }
      MON_NEAR("vector_before", V(t0 - far, d)(0), sv0[d], tol, "derivative " << d << " " << far << " before the start " << t0);
      MON_NEAR("vector_after", V(e + far, d)(0), sv1[d], tol, "derivative " << d << " " << far << " after the end " << e);
      count("outside_queries", 4);
    }
  }
  count("curves");
}
