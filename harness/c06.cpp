// C06: online monitor of the container clock: a reference clock is advanced in step with the real one.
#include <curves/PolynomialSplineContainer.hpp>
#include <curves/polynomial_splines_containers.hpp>
#include "orders.hpp"
using namespace curves;
using namespace mon;

template <int N>
void oneOrder(Rng& r) {
  using K = PolynomialSplineContainer<N>;
  using S = PolynomialSpline<N>;
  K k;
  std::vector<double> dur;
  double clock = 0, total = 0;
  // Mostly all times are multiples of 1/64: sums and differences are exact. Otherwise times closer to a
  // junction than rounding can tell are left out.
  const bool exact = r.chance(0.75);
  const int steps = r.range(5, M().thorough ? 120 : 50);
  uint64_t h = hashI(1469598103934665603ull, N);
  int spans = 0;
  auto segOf = [&](double t) {  // segment strictly containing t, or -1
    double s = 0;
    for (size_t i = 0; i < dur.size(); ++i) { if (t > s && t < s + dur[i]) return int(i); s += dur[i]; }
    return -1;
  };
  auto undecided = [&](double t) {
    if (exact) return false;
    double s = 0;
    for (double d : dur) { s += d; if (std::fabs(t - s) < 1e-9) return true; }
    return false;
  };
  auto tick = [&]() { return exact ? r.range(1, 192) / 64.0 : r.real(0.02, 3.0); };
  auto monitor = [&](bool located) {
    MON_NEAR("clock", k.getContainerTime(), clock, exact ? 0.0 : 1e-12 * (1 + std::fabs(clock)), "");
    MON_NEAR("duration", k.getContainerDuration(), total, exact ? 0.0 : 1e-12 * (1 + total), "");
    if (undecided(clock)) { count("undecided_times"); return; }
    if (!exact) count("inexact_times");
    MON_CHECK(k.isEmpty() == dur.empty(), "isEmpty");
    const double e[3] = {k.getPositionAtTime(clock), k.getVelocityAtTime(clock), k.getAccelerationAtTime(clock)};
    const double g[3] = {k.getPosition(), k.getVelocity(), k.getAcceleration()};
    for (int d = 0; d < 3; ++d)
      MON_NEAR("clock_value", g[d], e[d], (exact ? 1e-10 : 1e-8) * (1 + std::fabs(e[d])), "derivative " << d << " at clock " << clock << " durations " << list(dur));
    if (dur.empty()) for (int d = 0; d < 3; ++d) MON_CHECK(g[d] == 0.0, "empty container evaluates to " << g[d]);
    if (located) {
      const int s = segOf(clock);
      if (s >= 0) { MON_CHECK(k.getActiveSplineIndex() == s, "active index " << k.getActiveSplineIndex() << " expected " << s << " at clock " << clock << " durations " << list(dur)); count("active_index_checked"); }
    }
    {
      if (dur.empty() && clock != 0) count("empty_with_clock_set");
      const bool legal = clock >= 0 && clock <= total;
      MON_CHECK(k.checkContainer() == legal, "self check " << k.checkContainer() << " at clock " << clock << " of " << total);
      count(legal ? "selfcheck_accepts" : "selfcheck_rejects");
      if (legal && r.chance(0.03)) {  // a segment that cannot be played
        K bad(k);
        typename S::SplineCoefficients c;
        for (auto& x : c) x = r.value(2.0);
        const bool nan = r.chance(0.6);
        if (nan) c[r.below(N + 1)] = std::numeric_limits<double>::quiet_NaN();
        bad.addSpline(S(c, nan ? tick() : -0.5 * r.unit() * (total - clock) - 1e-3));
        for (int j = r.range(0, 2); j > 0; --j) { for (auto& x : c) x = r.value(2.0); bad.addSpline(S(c, tick())); }
        MON_CHECK(!bad.checkContainer(), "self check accepts a segment with " << (nan ? "a coefficient that is not a number" : "negative duration") << " after " << dur.size() << " segments");
        MON_CHECK(k.checkContainer(), "self check of the original");
        count(nan ? "selfcheck_nan" : "selfcheck_negative_duration");
      }
    }
  };
  bool located = true;
  monitor(true);
  if (r.chance(0.01)) {  // many segments
    for (int j = r.range(100, 1000); j > 0; --j) {
      typename S::SplineCoefficients c;
      for (auto& x : c) x = r.value(2.0);
      dur.push_back(tick()); total += dur.back();
      k.addSpline(S(c, dur.back()));
    }
    op("add " + std::to_string(dur.size()) + " segments");
    located = false;
    monitor(false);
    count("containers_of_hundreds");
  }
  for (int i = 0; i < steps; ++i) {
    const int what = r.range(0, 15);
    h = hashI(h, uint64_t(what));
    if (what <= 2 || (dur.empty() && what <= 7)) {
      const int n = r.range(1, 4);
      for (int j = 0; j < n; ++j) {
        typename S::SplineCoefficients c;
        for (auto& x : c) x = r.value(2.0);
        const double d = tick();
        k.addSpline(S(c, d));
        dur.push_back(d);
        const bool atEnd = clock >= total;
        total += d;
        if (atEnd && clock < total) count("append_after_end");
        op("add " + num(d));
      }
      located = false;  // the cached index is only specified after a step or jump
      monitor(false);
    } else if (what <= 10) {
      double dt;
      switch (r.below(7)) {
        case 0: dt = tick() * (r.chance(0.05) ? 100 : 5); break;          // several segments
        case 1: dt = r.chance(0.3) ? std::ldexp(1.0, -r.range(10, 30)) : 1 / 64.0; break;
        case 2: dt = total - clock; if (!(dt > 0) || !exact) dt = tick(); break;  // exactly to the end
        case 3: dt = 0.0; break;
        case 4: { double s = 0; dt = tick(); if (exact) for (double d : dur) { s += d; if (s > clock) { dt = s - clock; break; } } break; }  // exactly to a junction
        default: dt = tick(); break;
      }
      if (undecided(clock)) { k.resetTime(); clock = 0; }
      const bool expect = !dur.empty() && clock < total;
      const int before = segOf(clock);
      op("advance " + num(dt));
      const int idxBefore = k.getActiveSplineIndex();
      const bool got = k.advance(dt);
      MON_CHECK(got == expect, "advance(" << dt << ") returned " << got << " at clock " << clock << " of " << total << ", " << dur.size() << " segments");
      if (expect) { clock += dt; located = true; const int after = segOf(clock); if (before >= 0 && after > before + 1) { count("multi_segment_steps"); ++spans; } count("accepted_steps"); }
      else { MON_CHECK(k.getActiveSplineIndex() == idxBefore, "refused step changed the active index"); count("refused_steps"); }
      monitor(located && expect);
    } else if (what <= 12) {
      double t;
      switch (r.below(5)) {
        case 0: t = -tick() * (r.chance(0.3) ? 256 : 1); break;
        case 1: t = total + tick() * (r.chance(0.3) ? 256 : 1); break;
        case 2: t = exact ? total : total * r.unit(); break;
        default: t = std::floor(r.unit() * total * 64) / 64.0; break;
      }
      op("jump " + num(t));
      k.setContainerTime(t);
      clock = t;
      located = true;
      if (dur.empty()) count("jump_on_empty");
      count("jumps");
      monitor(true);
    } else if (what == 13) {
      op("resetTime");
      MON_CHECK(k.resetTime(), "resetTime");
      clock = 0;
      located = true;
      MON_CHECK(dur.empty() || k.getActiveSplineIndex() == 0, "active index after resetting the time");
      monitor(true);
      count("time_resets");
    } else if (what == 14) {
      op("reset");
      MON_CHECK(k.reset(), "reset");
      dur.clear(); total = clock = 0; located = true;
      monitor(true);
      count("resets");
    } else {
      const int n = r.range(2, 5);
      std::vector<double> t(1, tick()), x(1, r.value(2.0));
      for (int j = 1; j < n; ++j) { t.push_back(t.back() + tick()); x.push_back(r.value(2.0)); }
      op("fit " + list(t));
      const int how = r.range(0, 2);
      bool ok = how == 0 ? k.setData(t, x) : how == 1 ? k.setData(t, x, 0.5, -0.5) : k.setData(t, x, 0.5, 0, -0.5, 0);
      MON_CHECK(ok, "fit failed");
      dur.clear(); total = clock = 0; located = true;
      for (int j = 1; j < n; ++j) { dur.push_back(t[j] - t[j - 1]); total += dur.back(); }
      monitor(true);
      count("fits");
    }
    if (r.chance(0.05) && !dur.empty()) { K copy(k); const double c0 = clock; copy.advance(tick()); copy.addSpline(S()); MON_CHECK(k.getContainerTime() == c0, "copy shares the clock"); monitor(false); count("copies"); }
  }
  nontrivial(hashD(hashI(h, uint64_t(spans)), total));
  if (spans) sample("order " + std::to_string(N) + ", " + std::to_string(steps) + " operations, " + std::to_string(spans) + " steps across several segments");
}
ORDERS_MAIN("C06", runOrder(1 + int(id % 5), r);)
