// C03: boundary values are held outside the time range.
#include <curves/PolynomialSplineContainer.hpp>
#include <curves/polynomial_splines_containers.hpp>
#include "orders.hpp"
#include "c03_curves.hpp"
using namespace curves;
using namespace mon;

template <class T>
static void holds(const T& s, double dur, double mag, Rng& r, const char* what) {
  const double inf = std::numeric_limits<double>::infinity();
  const double p0 = s.getPositionAtTime(0.0), v0 = s.getVelocityAtTime(0.0), a0 = s.getAccelerationAtTime(0.0);
  const double p1 = s.getPositionAtTime(dur), v1 = s.getVelocityAtTime(dur), a1 = s.getAccelerationAtTime(dur);
  const double tp = 1e-12 * mag;
  for (double far : {5e-324, 1e-300, 1e-12, 1e-9, 1e-6, 1e-3, 0.01, 0.5, 1.0, 10.0, 1e3, 1e6, 1e12, 1e100, 1e300, 1.7e308, inf, r.logreal(1e-9, 1e9)}) {
    const double b = -far, e = dur + far;
    MON_NEAR("before_pos", s.getPositionAtTime(b), p0, tp, what << " t=" << b);
    MON_NEAR("before_vel", s.getVelocityAtTime(b), v0, tp, what << " t=" << b);
    MON_NEAR("before_acc", s.getAccelerationAtTime(b), a0, tp, what << " t=" << b);
    MON_NEAR("after_pos", s.getPositionAtTime(e), p1, tp, what << " t=" << e << " duration " << dur);
    MON_NEAR("after_vel", s.getVelocityAtTime(e), v1, tp, what << " t=" << e << " duration " << dur);
    MON_NEAR("after_acc", s.getAccelerationAtTime(e), a1, tp, what << " t=" << e << " duration " << dur);
    count("outside_queries", 2);
  }
  count(what);
}

template <int N>
void oneOrder(Rng& r) {
  using S = PolynomialSpline<N>;
  uint64_t h = hashI(1469598103934665603ull, N);
  auto magnitude = [](const S& s) {
    double m = 1e-6, d = std::max(1.0, s.getSplineDuration()), p = 1;
    for (int i = N; i >= 0; --i) { m += std::fabs(s.getCoefficients()[size_t(i)]) * p * (N + 1) * (N + 1); p *= d; }
    return m;
  };
  { // single spline
    typename S::SplineCoefficients c;
    for (auto& x : c) x = r.value(5.0);
    S s(c, r.chance(0.1) ? 0.0 : r.chance(0.2) ? r.logreal(1e-9, 1e4) : r.logreal(1e-3, 100.0));
    for (double x : c) h = hashD(h, x);
    holds(s, s.getSplineDuration(), magnitude(s), r, "spline");
  }
  { // container of arbitrary segments (not even continuous)
    PolynomialSplineContainer<N> k;
    const int n = r.chance(0.02) ? r.range(30, 400) : r.range(1, 12);
    if (n >= 30) count("large_containers");
    double mag = 0, total = 0;
    const bool dyadic = r.chance(0.5);
    for (int i = 0; i < n; ++i) {
      typename S::SplineCoefficients c;
      for (auto& x : c) x = r.value(5.0);
      S s(c, dyadic ? 0.125 * r.range(1, 40) : r.logreal(1e-2, 10.0));
      mag = std::max(mag, magnitude(s));
      total += s.getSplineDuration();
      k.addSpline(s);
      h = hashD(h, s.getSplineDuration());
    }
    if (r.chance(0.3)) { k.setContainerTime(r.real(0, total)); k.advance(r.chance(0.3) ? 2 * total : r.real(0, total)); count("clock_used_before"); }
    holds(k, k.getContainerDuration(), mag, r, "container");
    const S& last = k.getSplines().back();
    const S& first = k.getSplines().front();
    const double d = last.getSplineDuration(), tp = 1e-12 * mag;
    MON_NEAR("start_pos", k.getPositionAtTime(0.0), first.getPositionAtTime(0.0), tp, "container start");
    MON_NEAR("start_vel", k.getVelocityAtTime(0.0), first.getVelocityAtTime(0.0), tp, "container start");
    MON_NEAR("start_acc", k.getAccelerationAtTime(0.0), first.getAccelerationAtTime(0.0), tp, "container start");
    MON_NEAR("end_pos", k.getEndPosition(), last.getPositionAtTime(d), tp, "container end");
    MON_NEAR("end_vel", k.getEndVelocity(), last.getVelocityAtTime(d), tp, "container end");
    MON_NEAR("end_acc", k.getEndAcceleration(), last.getAccelerationAtTime(d), tp, "container end");
    // The end time computed by the user as the sum of durations may round differently.
    const double t1 = k.getContainerDuration(), tol = 1e-9 * mag * std::max(1.0, total);
    MON_NEAR("end_time_pos", k.getPositionAtTime(t1), k.getEndPosition(), tol, "value at the end time, " << n << " segments");
    MON_NEAR("end_time_vel", k.getVelocityAtTime(t1), k.getEndVelocity(), tol, "value at the end time, " << n << " segments");
    MON_NEAR("end_time_acc", k.getAccelerationAtTime(t1), k.getEndAcceleration(), tol, "value at the end time, " << n << " segments");
    sample("order " + std::to_string(N) + " container of " + std::to_string(n) + " segments, duration " + num(t1));
  }
  nontrivial(h);
  if (N == 5) curveHold(r);
}
ORDERS_MAIN("C03", runOrder(1 + int(id % 5), r);)
