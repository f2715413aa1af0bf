// C07: invalid knots are rejected and leave an empty container.
#include <curves/PolynomialSplineContainer.hpp>
#include <curves/polynomial_splines_containers.hpp>
#include <algorithm>
#include "orders.hpp"
using namespace curves;
using namespace mon;

template <class K>
static bool fit(K& k, int overload, const std::vector<double>& t, const std::vector<double>& x, const double* b) {
  return overload == 0 ? k.setData(t, x, b[0], b[1], b[2], b[3]) : overload == 1 ? k.setData(t, x, b[0], b[2]) : k.setData(t, x);
}

template <int N>
void oneOrder(Rng& r) {
  using K = PolynomialSplineContainer<N>;
  using S = PolynomialSpline<N>;
  K k;
  uint64_t h = hashI(1469598103934665603ull, N);
  const int rounds = r.range(1, 5);
  for (int round = 0; round < rounds; ++round) {
    // previous content
    switch (r.below(5)) {
      case 0: break;
      case 1: k.setData({0.0, 1.0, 2.5}, {1.0, 2.0, -1.0}); break;
      case 2: k.setData({5.0, 6.0, 7.5, 8.0}, {1.0, 2.0, -1.0, 0.0}, 1.0, 2.0, 3.0, 4.0); k.advance(1.7); break;
      case 3: { typename S::SplineCoefficients c; c.fill(2.0); k.addSpline(S(c, 1.5)); k.setContainerTime(0.75); break; }
      default: k.reset(); k.setContainerTime(2.0); break;
    }
    const int n = r.chance(0.01) ? r.range(100, 400) : r.chance(0.05) ? r.range(10, 60) : r.range(2, 9);
    std::vector<double> t = gen::knotsAnySpacing(r, n, 0.2, 3.0, gen::startTime(r)), x = gen::values(r, n, 5.0);
    const double b[4] = {r.value(2), r.value(2), r.value(2), r.value(2)};
    const char* kind;
    const int bad = r.range(0, 11);
    int at = -1;
    switch (bad) {
      case 0: t.clear(); x.clear(); kind = "no_knots"; break;
      case 1: t.resize(1); x.resize(1); kind = "one_knot"; break;
      case 2: at = r.range(1, n - 1); t[at] = t[at - 1]; if (r.chance(0.3)) for (int i = at + 1; i < n; ++i) t[i] = t[i - 1] + 0.5; kind = "repeated_time"; break;
      case 3: at = r.range(1, n - 1); t[at] = r.chance(0.3) ? std::nextafter(t[at - 1], -1e9) : t[at - 1] - r.logreal(1e-6, r.chance(0.3) ? 1e9 : 10.0); for (int i = at + 1; i < n; ++i) t[i] = t[i - 1] + 0.5; kind = "decreasing_time"; break;
      case 4: { at = n - 1; t[at] = t[at - 1] - 0.25; kind = "decreasing_last"; break; }
      case 5: { at = 1; const double keep = t[0]; t[0] = t[1] + 0.25; (void)keep; kind = "decreasing_first"; break; }
      case 6: x.resize(size_t(r.range(0, n - 1))); kind = "too_few_positions"; break;
      case 7: x.resize(size_t(n + r.range(1, 5)), 1.0); kind = "too_many_positions"; break;
      case 8: t.clear(); kind = "no_times"; break;
      case 9: t.resize(1); kind = "one_time"; break;
      case 10: std::reverse(t.begin(), t.end()); kind = "reversed_times"; break;
      default: at = r.range(0, n - 1); t[at] = std::nan(""); kind = "time_not_a_number"; break;
    }
    const int overload = r.range(0, 2);
    std::ostringstream d; d.precision(17);
    d << kind << " at " << at << " order " << N << " overload " << (overload == 0 ? 6 : overload == 1 ? 4 : 2) << " t=" << list(t) << " x=" << list(x);
    const std::string D = d.str();
    op(D);
    const bool ok = fit(k, overload, t, x, b);
    MON_CHECK(!ok, "accepted: " << D);
    MON_CHECK(k.isEmpty() && k.getSplines().empty(), "not empty after rejection: " << D);
    MON_CHECK(k.getContainerDuration() == 0.0, "duration " << k.getContainerDuration() << " after rejection: " << D);
    double off = 3;
    MON_CHECK(k.getActiveSplineIndexAtTime(0.5, off) == -1, "active segment after rejection: " << D);
    MON_CHECK(k.getPositionAtTime(0.3) == 0.0 && k.getVelocityAtTime(0.3) == 0.0 && k.getAccelerationAtTime(0.3) == 0.0, "evaluates to non-zero after rejection: " << D);
    MON_CHECK(k.getPosition() == 0.0 && k.getEndPosition() == 0.0, "evaluates to non-zero after rejection: " << D);
    MON_CHECK(!k.advance(0.1), "clock runs on an empty container: " << D);
    count(kind); count("rejections");
    h = hashI(hashI(hashI(h, uint64_t(bad)), uint64_t(overload)), uint64_t(at * 16 + n));
    if (r.chance(0.5)) {
      // a valid fit afterwards behaves like a fresh one
      const int m = r.range(2, 6);
      std::vector<double> t2 = gen::knotsAnySpacing(r, m, 0.2, 3.0, gen::startTime(r)), x2 = gen::values(r, m, 5.0);
      const int o2 = r.range(0, 2);
      K fresh;
      const bool ok1 = fit(k, o2, t2, x2, b), ok2 = fit(fresh, o2, t2, x2, b);
      MON_CHECK(ok1 && ok2, "valid fit refused after " << D);
      MON_CHECK(k.getSplines().size() == size_t(m - 1), "segments after a valid fit following " << D);
      for (int i = 0; i < 12; ++i) {
        const double q = r.real(-0.5, t2.back() - t2.front() + 0.5);
        MON_NEAR("refit", k.getPositionAtTime(q), fresh.getPositionAtTime(q), 1e-9 * (1 + std::fabs(fresh.getPositionAtTime(q))), "refit after " << D);
      }
      MON_CHECK(k.getContainerTime() == 0.0, "clock after refit");
      count("valid_fits_after_rejection");
    }
  }
  nontrivial(h);
  sample(M().trace.empty() ? "" : M().trace.back());
}
ORDERS_MAIN("C07", runOrder(1 + int(id % 5), r);)
