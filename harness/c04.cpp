// C04: fitted containers interpolate, are C2 and honour boundary conditions or the documented fallback.
#include <curves/PolynomialSplineContainer.hpp>
#include <curves/polynomial_splines_containers.hpp>
#include "orders.hpp"
using namespace curves;
using namespace mon;

static const double TOL = 1e-7;

template <int N>
void oneOrder(Rng& r) {
  using K = PolynomialSplineContainer<N>;
  const bool large = M().flags.count("--large") > 0;
  const int n = large ? r.range(30, M().thorough ? 260 : 130) : r.chance(0.2) ? 2 : r.chance(0.25) ? 3 : r.chance(0.1) ? r.range(20, M().thorough ? 40 : 28) : r.range(2, 12);
  const double t0 = gen::startTime(r);
  static const double spacing[][2] = {{0.5, 2.0}, {0.5, 2.0}, {0.1, 5.0}, {0.1, 5.0}, {0.1, 5.0}, {0.005, 0.02}, {0.01, 1.0}, {1.0, 50.0}, {20.0, 1000.0}};
  const double* g = spacing[r.below(9)];
  const std::vector<double> t = gen::knots(r, n, g[0], g[1], t0);
  const double sc = r.chance(0.1) ? r.logreal(1e-6, 1e6) : r.logreal(1e-2, 1e2);
  const std::vector<double> x = gen::values(r, n, sc);
  double v0 = r.value(sc), a0 = r.value(sc), v1 = r.value(sc), a1 = r.value(sc);
  if (r.chance(0.3)) { const double u = t[1] - t[0]; v0 /= u; v1 /= u; a0 /= u * u; a1 /= u * u; }
  if (r.chance(0.15)) { double* b[] = {&v0, &a0, &v1, &a1}; const int keep = r.range(0, 4); for (int i = 0; i < 4; ++i) if (i != keep) *b[i] = 0; }
  const int overload = r.range(0, 3);  // 0,1: six arguments, 2: four, 3: two
  K k;
  if (r.chance(0.3)) {  // not on a fresh container
    k.setData({0.0, 1.0, 3.0}, {1.0, -2.0, 5.0}, 1.0, 2.0);
    if (r.chance(0.5)) k.advance(1.5);
  }
  bool ok;
  if (overload <= 1) ok = k.setData(t, x, v0, a0, v1, a1);
  else if (overload == 2) ok = k.setData(t, x, v0, v1);
  else ok = k.setData(t, x);
  std::ostringstream d; d.precision(17);
  d << "order " << N << " overload " << (overload <= 1 ? 6 : overload == 2 ? 4 : 2) << " t=" << list(t) << " x=" << list(x) << " v=(" << v0 << "," << v1 << ") a=(" << a0 << "," << a1 << ")";
  const std::string D = d.str();
  MON_CHECK(ok, "fit failed: " << D);
  MON_CHECK(!k.isEmpty(), "empty after fit: " << D);
  MON_CHECK(k.getSplines().size() == size_t(n - 1), "segments " << k.getSplines().size() << ": " << D);
  MON_CHECK(k.getContainerTime() == 0.0, "clock not at zero after a fit: " << D);
  MON_CHECK(k.checkContainer(), "self check fails: " << D);

  const bool smooth = N >= 3 && overload <= 2;
  const bool accBoundary = overload <= 1 && (N == 5 || (N == 4 && n >= 3));
  // Natural scales of the data.
  double S = 0, dmin = 1e9, dmax = 0;
  for (double y : x) S = std::max(S, std::fabs(y));
  for (int i = 1; i < n; ++i) { dmin = std::min(dmin, t[i] - t[i - 1]); dmax = std::max(dmax, t[i] - t[i - 1]); }
  S = std::max({S, std::fabs(v0) * dmax, std::fabs(v1) * dmax, std::fabs(a0) * dmax * dmax, std::fabs(a1) * dmax * dmax, 1e-9 * sc});
  const double sp = S, sv = sp / dmin, sa = sv / dmin;
  const double lin = 1e-10 * S;
  const auto& sp_ = k.getSplines();
  double off = 0;
  for (int i = 0; i + 1 < n; ++i) {
    const auto& s = sp_[size_t(i)];
    const double dur = s.getSplineDuration();
    MON_NEAR("duration", dur, t[i + 1] - t[i], 1e-9 * dmin, "segment " << i << ": " << D);
    if (smooth) {
      MON_NEAR("knot_start", s.getPositionAtTime(0), x[i], TOL * sp, "segment " << i << ": " << D);
      MON_NEAR("knot_end", s.getPositionAtTime(dur), x[i + 1], TOL * sp, "segment " << i << ": " << D);
      if (i > 0) {
        const auto& q = sp_[size_t(i - 1)];
        MON_NEAR("junction_vel", s.getVelocityAtTime(0), q.getVelocityAtTime(q.getSplineDuration()), TOL * sv, "junction " << i << ": " << D);
        MON_NEAR("junction_acc", s.getAccelerationAtTime(0), q.getAccelerationAtTime(q.getSplineDuration()), TOL * sa, "junction " << i << ": " << D);
        count("junctions");
      }
    } else {
      const double slope = (x[i + 1] - x[i]) / (t[i + 1] - t[i]);
      for (int q = 0; q <= 4; ++q) {
        const double f = q / 4.0;
        MON_NEAR("linear_pos", s.getPositionAtTime(f * dur), x[i] + f * (x[i + 1] - x[i]), lin, "segment " << i << ": " << D);
        MON_NEAR("linear_vel", s.getVelocityAtTime(f * dur), slope, lin / dmin, "segment " << i << ": " << D);
        MON_NEAR("linear_acc", s.getAccelerationAtTime(f * dur), 0.0, lin / (dmin * dmin), "segment " << i << ": " << D);
      }
      count("linear_segments");
    }
    // the container itself passes through the knots
    MON_NEAR("knot_time", k.getPositionAtTime(t[i] - t[0]), x[i], TOL * sp, "knot " << i << ": " << D);
    off += dur;
  }
  MON_NEAR("knot_time", k.getPositionAtTime(t[n - 1] - t[0]), x[n - 1], TOL * sp, "last knot: " << D);
  MON_NEAR("end_position", k.getEndPosition(), x[n - 1], TOL * sp, "last knot: " << D);
  MON_NEAR("total_duration", k.getContainerDuration(), t[n - 1] - t[0], 1e-9 * (1 + off), D);
  if (smooth) {
    MON_NEAR("start_vel", k.getVelocityAtTime(0), v0, TOL * sv, D);
    MON_NEAR("end_vel", k.getEndVelocity(), v1, TOL * sv, D);
    if (accBoundary) {
      MON_NEAR("start_acc", k.getAccelerationAtTime(0), a0, TOL * sa, D);
      MON_NEAR("end_acc", k.getEndAcceleration(), a1, TOL * sa, D);
      count("boundary_accelerations");
    }
    count("smooth_fits");
  }
  count((std::string("order_") + std::to_string(N)).c_str());
  if (n >= 64) count("fits_of_64_knots_or_more");
  uint64_t h = hashI(hashI(1469598103934665603ull, N), uint64_t(overload));
  bool varied = false;
  for (double y : t) h = hashD(h, y);
  for (double y : x) { h = hashD(h, y); varied |= y != x[0]; }
  if (varied || v0 != 0 || v1 != 0) nontrivial(hashD(hashD(h, v0), v1));
  sample(D);
}
#if PART == 0
// A recorded limitation (KNOWN_FINDINGS.txt): the fit loses conditions when knots are extremely close in time.
static void probe() {
  curves::PolynomialSplineContainer<5> k;
  MON_CHECK(k.setData({0.0, 0.001}, {0.0, 1.0}, 0.0, 0.0, 0.0, 0.0), "probe: fit failed");
  count("probes");
  nontrivial(1);
  MON_NEAR("probe", k.getPositionAtTime(0.001), 1.0, 1e-6, "quintic fit to two knots 1 ms apart");
}
#endif
ORDERS_MAIN("C04", if (M().flags.count("--probe")) probe(); else runOrder(1 + int(id % 5), r);)
