// C05: active segment lookup, offsets, duration and delegation to the active segment.
#include <curves/PolynomialSplineContainer.hpp>
#include <curves/polynomial_splines_containers.hpp>
#include "orders.hpp"
using namespace curves;
using namespace mon;

// Independent evaluation of a segment (clamped polynomial), extended precision.
template <int N>
static double segEval(const std::array<double, N + 1>& c, double dur, double t, int d, double* mag) {
  long double u = t < 0 ? 0 : t > dur ? dur : t;
  long double e = 0, m = 0;
  for (int i = 0; i <= N; ++i) {
    const int p = N - i;
    if (p < d) continue;
    long double f = 1;
    for (int j = 0; j < d; ++j) f *= (p - j);
    for (int j = 0; j < p - d; ++j) f *= u;
    e += f * c[size_t(i)];
    m += fabsl(f * c[size_t(i)]);
  }
  *mag = double(m);
  return double(e);
}

template <int N>
void oneOrder(Rng& r) {
  using K = PolynomialSplineContainer<N>;
  using S = PolynomialSpline<N>;
  K k;
  double off0 = -7.0;
  MON_CHECK(k.isEmpty() && k.getActiveSplineIndexAtTime(r.value(3), off0) == -1, "empty container");
  MON_CHECK(k.getContainerDuration() == 0.0, "empty container duration");
  MON_CHECK(k.getPositionAtTime(1.0) == 0.0 && k.getVelocityAtTime(0.0) == 0.0 && k.getAccelerationAtTime(-1.0) == 0.0, "empty container evaluates to zero");
  MON_CHECK(k.getEndPosition() == 0.0 && k.getEndVelocity() == 0.0 && k.getEndAcceleration() == 0.0, "empty container ends at zero");
  std::vector<std::array<double, N + 1>> coef;
  std::vector<double> dur;
  const bool exact = r.chance(0.7);   // dyadic durations: all sums and differences are exact
  const bool zeros = exact && r.chance(0.15);
  const int rounds = r.range(1, 3);
  uint64_t h = hashI(1469598103934665603ull, N);
  for (int round = 0; round < rounds; ++round) {
    if (r.chance(0.3)) k.reserveSplines(unsigned(r.range(0, 20)));
    if (round > 0 && r.chance(0.2)) { k.reset(); coef.clear(); dur.clear(); count("resets"); }
    if (round == 0 && r.chance(0.15)) {  // start from a fit
      std::vector<double> t = {0.0, 0.5, 1.25, 3.0}, x = {r.value(), r.value(), r.value(), r.value()};
      MON_CHECK(k.setData(t, x), "fit failed");
      for (const auto& s : k.getSplines()) { coef.push_back(s.getCoefficients()); dur.push_back(s.getSplineDuration()); }
      count("fitted_base");
    }
    const bool huge = r.chance(0.0004), big = huge || r.chance(0.01);
    const int n = huge ? r.range(65536, 70000) : big ? r.range(200, 3000) : r.chance(0.1) ? r.range(30, 80) : r.range(1, 9);
    if (big) count("containers_of_hundreds");
    if (huge) count("containers_beyond_65536");
    for (int i = 0; i < n; ++i) {
      std::array<double, N + 1> c;
      for (auto& x : c) x = r.value(5.0);
      const double d = zeros && r.chance(0.3) ? 0.0 : exact ? r.range(1, 64) * 0.0625 : r.logreal(1e-3, 10.0);
      S s(c, d);
      bool ok;
      switch (r.below(4)) {
        case 0: ok = k.addSpline(s); break;
        case 1: { const S& cr = s; ok = k.addSpline(cr); break; }
        case 2: ok = k.addSpline(std::move(s)); break;
        default: ok = k.addSpline(S(c, d)); break;
      }
      MON_CHECK(ok, "addSpline");
      coef.push_back(c); dur.push_back(d);
      h = hashD(h, d);
    }
    // the stored segments are the ones added, in order
    MON_CHECK(k.getSplines().size() == dur.size(), "segments " << k.getSplines().size() << " expected " << dur.size());
    MON_CHECK(!k.isEmpty(), "isEmpty");
    double total = 0;
    std::vector<double> start;
    for (size_t i = 0; i < dur.size(); ++i) {
      start.push_back(total);
      total += dur[i];
      MON_CHECK(k.getSplines()[i].getSplineDuration() == dur[i] && k.getSplines()[i].getCoefficients() == coef[i], "segment " << i << " is not the one added");
      MON_CHECK(k.getSpline(int(i)) == &k.getSplines()[i], "getSpline(" << i << ")");
    }
    const double slack = exact ? 0.0 : 1e-12 * (1 + total) * (1 + dur.size() / 100);
    MON_NEAR("duration", k.getContainerDuration(), total, slack, dur.size() << " segments");
    auto query = [&](double t) {
      // reference index: last segment with start <= t whose end > t
      int ref = int(dur.size()) - 1;
      bool ambiguous = false;
      for (size_t i = 0; i < dur.size(); ++i) {
        if (t < start[i] + dur[i]) { ref = int(i); break; }
      }
      if (!exact) for (size_t i = 0; i < dur.size(); ++i) if (std::fabs(t - start[i] - dur[i]) <= slack) ambiguous = true;
      if (ambiguous) { count("ambiguous_rounding"); return; }
      double off = -1;
      const int idx = k.getActiveSplineIndexAtTime(t, off);
      MON_CHECK(idx == ref, "index " << idx << " expected " << ref << " at t=" << t << " durations " << list(dur));
      MON_NEAR("offset", off, start[size_t(ref)], slack, "t=" << t << " index " << idx << " durations " << list(dur));
      for (int d = 0; d < 3; ++d) {
        double mag;
        const double e = segEval<N>(coef[size_t(ref)], dur[size_t(ref)], t - start[size_t(ref)], d, &mag);
        const double g = d == 0 ? k.getPositionAtTime(t) : d == 1 ? k.getVelocityAtTime(t) : k.getAccelerationAtTime(t);
        double m2; // sensitivity to a rounded offset
        const double e2 = segEval<N>(coef[size_t(ref)], dur[size_t(ref)], t - start[size_t(ref)] + 2 * slack, d, &m2);
        MON_NEAR("delegation", g, e, 1e-11 * (mag + 1e-3) + 2 * std::fabs(e2 - e), "derivative " << d << " at t=" << t << " segment " << ref << " of " << dur.size() << " durations " << list(dur));
      }
      count("lookups");
    };
    for (size_t i = 0; i < dur.size(); ++i) {
      if (dur.size() > 20 && i > 1 && i + 2 < dur.size() && !r.chance(20.0 / dur.size())) continue;
      query(start[i]);
      query(start[i] + dur[i]);
      query(start[i] + 0.5 * dur[i]);
      query(std::nextafter(start[i] + dur[i], -1e9));
      query(std::nextafter(start[i], 1e9));
      count("junction_lookups", 2);
    }
    query(total); query(total + 1.0); query(-1.0); query(-1e-9); query(0.0); query(r.real(0, total)); query(1e18); query(-1e18);
  }
  nontrivial(h);
  sample("order " + std::to_string(N) + " durations " + list(dur));
}
ORDERS_MAIN("C05", runOrder(1 + int(id % 5), r);)
