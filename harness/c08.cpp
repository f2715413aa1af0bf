// C08: quintic scalar curves: samples, time axis, boundary derivatives, derivative consistency, equivariance, option lists.
#include <glog/logging.h>
#include <curves/PolynomialSplineScalarCurve.hpp>
#include "gen.hpp"
using namespace curves;
using namespace mon;
using C = PolynomialSplineQuinticScalarCurve;
static const double TOL = 1e-7;

static double at(const C& c, double t) { double x = -7e77; MON_CHECK(c.evaluate(x, t), "evaluate refused at " << t); return x; }
static double dat(const C& c, double t, unsigned d) { double x = -7e77; MON_CHECK(c.evaluateDerivative(x, t, d), "derivative " << d << " refused at " << t); return x; }

// 7-point central differences: exact on polynomials of degree six.
template <class F> double diff1(F f, double t, double h) {
  return (45 * (f(t + h) - f(t - h)) - 9 * (f(t + 2 * h) - f(t - 2 * h)) + (f(t + 3 * h) - f(t - 3 * h))) / (60 * h);
}
template <class F> double diff2(F f, double t, double h) {
  return (-490 * f(t) + 270 * (f(t + h) + f(t - h)) - 27 * (f(t + 2 * h) + f(t - 2 * h)) + 2 * (f(t + 3 * h) + f(t - 3 * h))) / (180 * h * h);
}

struct Quintic {  // reference: quintic Hermite polynomial from its six boundary values
  long double c[6], T;
  explicit Quintic(const double o[7]) : T(o[0]) {
    const long double p0 = o[1], p1 = o[2], v0 = o[3], v1 = o[4], a0 = o[5], a1 = o[6];
    const long double D = p1 - p0 - v0 * T - a0 * T * T / 2, V = v1 - v0 - a0 * T, A = a1 - a0;
    c[0] = p0; c[1] = v0; c[2] = a0 / 2;
    c[3] = (10 * D - 4 * V * T + A * T * T / 2) / (T * T * T);
    c[4] = (-15 * D + 7 * V * T - A * T * T) / (T * T * T * T);
    c[5] = (6 * D - 3 * V * T + A * T * T / 2) / (T * T * T * T * T);
  }
  double val(long double t, int d) const {
    long double s = 0;
    for (int i = 5; i >= d; --i) { long double f = 1; for (int j = 0; j < d; ++j) f *= i - j; s = s * t + f * c[i]; }
    return double(s);
  }
};

static void refuseOrders(const C& c, double t, Rng& r) {
  static const unsigned orders[] = {0u, 3u, 4u, 5u, 6u, 17u, 256u, 257u, 65537u, 0x80000001u, 0xffffffffu};
  const unsigned o = orders[r.below(11)];
  double x = 1.25;
  MON_CHECK(!c.evaluateDerivative(x, t, o), "derivative order " << o << " not refused");
  count("refused_orders");
}

static void samples(Rng& r) {
  const int n = r.chance(0.2) ? 2 : r.chance(0.01) ? r.range(30, 60) : r.chance(0.1) ? r.range(15, 30) : r.range(2, 12);
  const double t0 = r.chance(0.1) ? 1e5 * r.real(-1, 1) : gen::startTime(r);
  static const double spacing[][2] = {{0.1, 5.0}, {0.1, 5.0}, {0.1, 5.0}, {0.5, 2.0}, {0.02, 1.0}, {1.0, 50.0}, {20.0, 500.0}};
  const double* g = spacing[r.below(7)];
  const std::vector<double> t = gen::knots(r, n, g[0], g[1], t0);
  const double sc = r.chance(0.1) ? r.logreal(1e-6, 1e6) : r.logreal(1e-2, 1e2);
  const std::vector<double> x = gen::values(r, n, sc);
  const bool bnd = r.chance(0.7);
  double b[4] = {0, 0, 0, 0};
  if (bnd) for (double& q : b) q = r.value(sc);
  C c;
  if (r.chance(0.3)) { c.fitCurve({-3.0, 1.0, 2.5}, {1.0, 2.0, -1.0}, 1.0, 2.0, 3.0, 4.0); count("reused"); }
  std::vector<Key> keys;
  std::vector<Key>* pk = r.chance(0.3) ? &keys : nullptr;
  if (bnd) c.fitCurve(t, x, b[0], b[1], b[2], b[3], pk); else c.fitCurve(t, x, pk);
  std::ostringstream d; d.precision(17);
  d << "t=" << list(t) << " x=" << list(x) << " (v0,a0,v1,a1)=(" << b[0] << "," << b[1] << "," << b[2] << "," << b[3] << ")";
  const std::string D = d.str();
  double S = 1e-9 * sc, dmin = 1e9, dmax = 0;
  for (double y : x) S = std::max(S, std::fabs(y));
  for (int i = 1; i < n; ++i) { dmin = std::min(dmin, t[i] - t[i - 1]); dmax = std::max(dmax, t[i] - t[i - 1]); }
  S = std::max({S, std::fabs(b[0]) * dmax, std::fabs(b[2]) * dmax, std::fabs(b[1]) * dmax * dmax, std::fabs(b[3]) * dmax * dmax});
  // looking a time up on the curve's own axis rounds it by up to eps * |t|
  const double axis = 4e-16 * (std::fabs(t0) + std::fabs(t[n - 1])) * S / dmin * 50;
  const double tp = TOL * S + axis, tv = TOL * S / dmin + axis / dmin * 10, ta = TOL * S / (dmin * dmin) + axis / (dmin * dmin) * 100;
  MON_CHECK(c.getMinTime() == t0, "min time " << c.getMinTime() << ": " << D);
  MON_NEAR("max_time", c.getMaxTime(), t[n - 1], 1e-9 * (1 + t[n - 1] - t0) + 1e-15 * std::fabs(t0), D);
  for (int i = 0; i < n; ++i) MON_NEAR("sample", at(c, t[i]), x[i], tp, "sample " << i << ": " << D);
  MON_NEAR("start_vel", dat(c, t0, 1), b[0], tv, D);
  MON_NEAR("end_vel", dat(c, t[n - 1], 1), b[2], tv, D);
  MON_NEAR("start_acc", dat(c, t0, 2), b[1], ta, D);
  MON_NEAR("end_acc", dat(c, t[n - 1], 2), b[3], ta, D);
  count("samples", uint64_t(n));
  // derivatives are the derivatives of the value
  if (std::fabs(t0) < 5000) for (int i = 0; i + 1 < n; ++i) {
    const double w = t[i + 1] - t[i], hh = w / 8, m = t[i] + w / 2;
    auto f = [&](double q) { return at(c, q); };
    auto g = [&](double q) { return dat(c, q, 1); };
    MON_NEAR("vel_is_derivative", dat(c, m, 1), diff1(f, m, hh), tv, "interval " << i << ": " << D);
    MON_NEAR("acc_is_derivative", dat(c, m, 2), diff2(f, m, hh), ta, "interval " << i << ": " << D);
    MON_NEAR("acc_is_derivative_of_vel", dat(c, m, 2), diff1(g, m, hh), ta, "interval " << i << ": " << D);
    count("stencils", 3);
  }
  refuseOrders(c, r.real(t0 - 1, t[n - 1] + 1), r);
  uint64_t h = 1469598103934665603ull;
  for (double y : t) h = hashD(h, y);
  for (double y : x) h = hashD(h, y);
  nontrivial(hashD(h, b[0]));
  sample(D);
}

static void equivariance(Rng& r) {  // dyadic times: shifting is exact
  const int n = r.range(2, 10);
  std::vector<double> t(1, r.range(-640, 640) / 64.0), ts, x = gen::values(r, n, r.logreal(0.1, 50)), xs;
  for (int i = 1; i < n; ++i) t.push_back(t.back() + r.range(7, 200) / 64.0);
  const double shift = r.chance(0.1) ? 0.0 : r.chance(0.3) ? 65536.0 * r.range(-8, 8) : r.range(-6400, 6400) / 64.0;
  const double off = r.value(20);
  double b[4]; for (double& q : b) q = r.value(5);
  for (double q : t) ts.push_back(q + shift);
  for (double q : x) xs.push_back(q + off);
  C a, s, o;
  const bool bnd = r.chance(0.7);
  if (bnd) { a.fitCurve(t, x, b[0], b[1], b[2], b[3]); s.fitCurve(ts, x, b[0], b[1], b[2], b[3]); o.fitCurve(t, xs, b[0], b[1], b[2], b[3]); }
  else { a.fitCurve(t, x); s.fitCurve(ts, x); o.fitCurve(t, xs); }
  double S = 1e-6 + std::fabs(off);
  for (double y : x) S = std::max(S, std::fabs(y));
  for (double y : b) S = std::max(S, std::fabs(y) * 16);
  MON_CHECK(s.getMinTime() == a.getMinTime() + shift && s.getMaxTime() == a.getMaxTime() + shift, "time range does not shift by " << shift << " t=" << list(t));
  for (int i = 0; i < 16; ++i) {
    const double q = std::floor(r.real(t[0] - 1, t[n - 1] + 1) * 64) / 64.0;
    const double tl[3] = {TOL * S, 100 * TOL * S, 1e4 * TOL * S};
    for (unsigned k = 0; k < 3; ++k) {
      const double ya = k ? dat(a, q, k) : at(a, q), ys = k ? dat(s, q + shift, k) : at(s, q + shift), yo = k ? dat(o, q, k) : at(o, q);
      MON_NEAR("time_shift", ys, ya, tl[k], "derivative " << k << " at " << q << " shifted by " << shift << " t=" << list(t) << " x=" << list(x));
      MON_NEAR("value_shift", yo, k ? ya : ya + off, tl[k], "derivative " << k << " at " << q << " values offset by " << off << " t=" << list(t) << " x=" << list(x));
    }
    count("equivariance_queries", 6);
  }
  nontrivial(hashD(hashD(hashD(1469598103934665603ull, shift), off), x[0] + t[n - 1]));
}

static void options(Rng& r) {
  C c;
  if (r.chance(0.5)) { if (r.chance(0.5)) c.fitCurve({2.0, 3.0}, {1.0, 2.0}); else c.fitCurve({-2.0, 3.0, 4.0}, {1.0, 2.0, -5.0}, 1, 2, 3, 4); count("options_on_used_curve"); }
  for (int round = r.range(1, 2); round > 0; --round) {
    const int n = r.chance(0.02) ? r.range(60, 300) : r.range(1, 8);
    std::vector<SplineOptions> ol;
    std::vector<std::array<double, 7>> ref;
    const int lengths = r.range(0, 3);  // 2, 3: very short or long segments as well
    for (int i = 0; i < n; ++i) {
      std::array<double, 7> o;
      o[0] = lengths == 2 ? r.logreal(0.02, 4.0) : lengths == 3 ? r.logreal(0.25, 80.0) : r.chance(0.5) ? r.range(8, 128) / 32.0 : r.real(0.25, 4.0);
      if (o[0] < 0.05) count("short_option_segments");
      if (o[0] > 20) count("long_option_segments");
      for (int j = 1; j < 7; ++j) o[j] = r.value(3);
      ref.push_back(o);
      ol.emplace_back(o[0], o[1], o[2], o[3], o[4], o[5], o[6]);
    }
    c.fitCurve(ol);
    double off = 0;
    std::string D = "options list of " + std::to_string(n);
    MON_CHECK(c.getMinTime() == 0.0, "min time " << c.getMinTime() << " " << D);
    for (int i = 0; i < n; ++i) {
      const Quintic q(ref[i].data());
      const double T = ref[i][0];
      double S = 1;
      for (int j = 1; j < 7; ++j) S = std::max(S, std::fabs(ref[i][j]) * (j < 3 ? 16 : j < 5 ? std::max(1.0, T) * 16 : std::max(1.0, T * T) * 16));
      const double V = std::max(1.0, 1 / T);
      for (int j = 1; j < 12; ++j) {
        const double t = T * j / 12;
        MON_NEAR("options_value", at(c, off + t), q.val(t, 0), TOL * S, "segment " << i << " at " << t << " " << D);
        MON_NEAR("options_vel", dat(c, off + t, 1), q.val(t, 1), TOL * S * 50 * V, "segment " << i << " at " << t << " " << D);
        MON_NEAR("options_acc", dat(c, off + t, 2), q.val(t, 2), TOL * S * 2500 * V * V, "segment " << i << " at " << t << " " << D);
      }
      count("option_segments");
      off += T;
    }
    MON_NEAR("options_max_time", c.getMaxTime(), off, 1e-10 * off, D);
    nontrivial(hashD(hashD(1469598103934665603ull, off), ref[0][1] + ref[n - 1][6]));
  }
}

int main(int argc, char** argv) {
  return run(argc, argv, "C08", [](Rng& r, uint64_t id) {
    switch (id % 4) { case 0: equivariance(r); break; case 1: options(r); break; default: samples(r); }
  });
}
