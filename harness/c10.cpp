// C10: history independence: after any history a fit (or a clear) leaves an object that behaves like a fresh one.
#include <glog/logging.h>
#include <memory>
#include <curves/PolynomialSplineScalarCurve.hpp>
#include <curves/PolynomialSplineVectorSpaceCurve.hpp>
#include "gen.hpp"
using namespace curves;
using namespace mon;
using VC = PolynomialSplineQuinticVector3Curve;
using Vec = VC::ValueType;

struct Data {
  std::vector<double> t, x;
  std::vector<Vec> w;
  double b[4];
  bool valid;
};
static Data randomData(Rng& r, bool mayFail) {
  Data d;
  const int n = r.chance(0.3) ? 2 : r.chance(0.03) ? r.range(10, 40) : r.range(2, 9);
  d.t = gen::knotsAnySpacing(r, n, 0.1, 4.0, gen::startTime(r));
  d.x = gen::values(r, n, r.logreal(0.1, 30));
  for (double& q : d.b) q = r.value(5);
  d.valid = !(mayFail && r.chance(0.25));
  if (!d.valid) switch (r.below(4)) {
    case 0: d.t.clear(); d.x.clear(); break;
    case 1: d.t.resize(1); d.x.resize(1); break;
    case 2: d.t.back() = d.t[size_t(n - 2)]; break;
    default: std::swap(d.t.front(), d.t.back()); break;
  }
  for (double x : d.x) d.w.push_back(Vec(x, r.value(3), r.value(3)));
  return d;
}
// The same data again with one thing changed (or nothing): catches results kept from an earlier fit.
static double change(Rng& r) { return r.chance(0.5) ? r.real(0.5, 3) : r.logreal(1e-5, 0.5); }
static Data variation(Rng& r, Data d) {
  const size_t n = d.t.size();
  switch (r.below(n < 2 ? 2 : 8)) {
    case 0: break;
    case 1: d.b[r.below(4)] += r.sign() * change(r); break;
    case 2: { const size_t i = r.below(n); d.x[i] += r.sign() * change(r); d.w[i](0) = d.x[i]; break; }
    case 3: { const size_t i = r.below(n); d.w[i](int(r.below(3))) += change(r); d.x[i] = d.w[i](0); break; }
    case 4: { const double s = r.sign() * 10 * change(r); for (double& q : d.t) q += s; break; }
    case 5: if (d.valid) { d.t.back() += change(r); } break;
    case 6: if (d.valid && n > 2) { d.t.pop_back(); d.x.pop_back(); d.w.pop_back(); } break;
    default: for (double& q : d.b) q = r.chance(0.5) ? -q : q; break;
  }
  count("variations");
  return d;
}
static double scale(const Data& d) { double S = 1; for (double x : d.x) S = std::max(S, std::fabs(x)); for (double x : d.b) S = std::max(S, 16 * std::fabs(x)); return S; }

// ---- adapters: one interface over the three kinds of object
template <int N> struct Cont {
  using T = PolynomialSplineContainer<N>;
  static const char* name() { return "container"; }
  static void fit(T& k, const Data& d, int how) {
    const bool ok = how == 0 ? k.setData(d.t, d.x) : how == 1 ? k.setData(d.t, d.x, d.b[0], d.b[2]) : k.setData(d.t, d.x, d.b[0], d.b[1], d.b[2], d.b[3]);
    MON_CHECK(ok == d.valid, "fit returned " << ok << " t=" << list(d.t));
  }
  static const int overloads = 3;
  static void clear(T& k) { MON_CHECK(k.reset(), "reset"); }
  static void noise(T& k, Rng& r) {
    switch (r.below(8)) {
      case 0: k.advance(r.real(0, 3)); break;
      case 1: k.setContainerTime(r.real(-1, 8)); break;
      case 2: { typename PolynomialSpline<N>::SplineCoefficients c; for (auto& q : c) q = r.value(2); const bool instant = r.chance(0.3), tiny = r.chance(0.3); if (instant) count("instant_segments"); else if (tiny) count("tiny_segments"); k.addSpline(PolynomialSpline<N>(c, instant ? 0.0 : tiny ? std::pow(10.0, r.real(-7, -3)) : r.real(0.1, 2))); break; }
      case 3: k.reserveSplines(unsigned(r.range(0, 30))); break;
      case 4: k.resetTime(); break;
      case 5: k.getPositionAtTime(r.real(-2, 20)); break;
      case 6: k.checkContainer(); break;
      default: k.getAcceleration(); break;
    }
  }
  static std::vector<double> look(const T& k, Rng r) {  // everything observable
    std::vector<double> o{k.getContainerDuration(), k.getContainerTime(), double(k.isEmpty()), double(k.getSplines().size()), k.isEmpty() ? 0.0 : double(k.getActiveSplineIndex())};
    const double T_ = k.getContainerDuration() + 2;
    for (int i = 0; i < 8; ++i) { const double q = r.real(-1, T_); double off = 0; o.push_back(double(k.getActiveSplineIndexAtTime(q, off))); o.push_back(k.getPositionAtTime(q)); o.push_back(k.getVelocityAtTime(q)); o.push_back(k.getAccelerationAtTime(q)); }
    for (double q : {k.getPosition(), k.getVelocity(), k.getAcceleration()}) o.push_back(q);
    if (!k.isEmpty()) for (double q : {k.getEndPosition(), k.getEndVelocity(), k.getEndAcceleration()}) o.push_back(q);
    for (const auto& s : k.getSplines()) { o.push_back(s.getSplineDuration()); }
    return o;
  }
  static std::vector<double> play(T k, Rng r) {  // behaviour under further use (on a copy)
    std::vector<double> o;
    for (int i = 0; i < 6; ++i) { o.push_back(double(k.advance(r.real(0, 2)))); o.push_back(k.getContainerTime()); o.push_back(k.getPosition()); o.push_back(k.getVelocity()); }
    typename PolynomialSpline<N>::SplineCoefficients c; for (auto& q : c) q = r.value(2);
    k.addSpline(PolynomialSpline<N>(c, 1.5));
    o.push_back(k.getContainerDuration());
    o.push_back(k.getPositionAtTime(k.getContainerDuration() - 0.7));
    o.push_back(double(k.advance(0.1))); o.push_back(k.getPosition());
    return o;
  }
};
struct Scal {
  using T = PolynomialSplineQuinticScalarCurve;
  static const char* name() { return "scalar curve"; }
  static const int overloads = 3;
  static void fit(T& k, const Data& d, int how) {
    if (how == 0) k.fitCurve(d.t, d.x);
    else if (how == 1 || (!d.valid && !d.t.empty())) k.fitCurve(d.t, d.x, d.b[0], d.b[1], d.b[2], d.b[3]);
    else { std::vector<SplineOptions> o; for (size_t i = 1; i < d.t.size(); ++i) o.emplace_back(d.t[i] - d.t[i - 1], d.x[i - 1], d.x[i], d.b[0], d.b[1], d.b[2], d.b[3]); k.fitCurve(o); count("option_fits"); }
  }
  static void clear(T& k) { k.clear(); }
  static void noise(T& k, Rng& r) { double q; if (r.chance(0.5)) k.evaluate(q, r.real(-5, 5)); else k.evaluateDerivative(q, r.real(-5, 5), r.below(4)); }
  static std::vector<double> look(const T& k, Rng r) {
    std::vector<double> o{k.getMinTime(), k.getMaxTime()};
    for (int i = 0; i < 10; ++i) { const double q = r.real(k.getMinTime() - 1, k.getMaxTime() + 1); double y = 0; o.push_back(k.evaluate(y, q)); o.push_back(y); for (unsigned d = 1; d <= 2; ++d) { o.push_back(k.evaluateDerivative(y, q, d)); o.push_back(y); } }
    return o;
  }
  static std::vector<double> play(const T& k, Rng r) { return look(k, r); }
};
struct Vect {
  using T = VC;
  static const char* name() { return "vector curve"; }
  static const int overloads = 3;
  static void fit(T& k, const Data& d, int how) {
    const Vec v0(d.b[0], 1, 0), a0(d.b[1], 0, 2), v1(d.b[2], -1, 1), a1(d.b[3], 0.5, 0);
    if (how == 0) k.fitCurve(d.t, d.w);
    else if (how == 1) k.fitCurve(d.t, d.w, v0, a0, v1, a1);
    else { std::vector<Vec> f(d.w.size(), v1), g(d.w.size(), a1); if (!f.empty()) { f[0] = v0; g[0] = a0; } k.fitCurve(d.t, d.w, f, g); }
  }
  static void clear(T& k) { k.clear(); }
  static void noise(T& k, Rng& r) { Vec q; if (r.chance(0.5)) k.evaluate(q, r.real(-5, 5)); else k.evaluateDerivative(q, r.real(-5, 5), 1 + r.below(2)); }
  static std::vector<double> look(const T& k, Rng r) {
    std::vector<double> o{k.getMinTime(), k.getMaxTime()};
    for (int i = 0; i < 10; ++i) { const double q = r.real(k.getMinTime() - 1, k.getMaxTime() + 1); Vec y(0, 0, 0); o.push_back(k.evaluate(y, q)); for (int j = 0; j < 3; ++j) o.push_back(y(j)); for (unsigned d = 1; d <= 2; ++d) { o.push_back(k.evaluateDerivative(y, q, d)); for (int j = 0; j < 3; ++j) o.push_back(y(j)); } }
    return o;
  }
  static std::vector<double> play(const T& k, Rng r) { return look(k, r); }
};

static void same(const char* ch, const std::vector<double>& a, const std::vector<double>& b, double S, const std::string& D) {
  MON_CHECK(a.size() == b.size(), ch << ": " << a.size() << " against " << b.size() << " observations: " << D);
  for (size_t i = 0; i < a.size(); ++i) MON_NEAR(ch, a[i], b[i], 1e-9 * S, "observation " << i << ": " << D);
  count(ch);
}

template <class A>
static void history(Rng& r) {
  using T = typename A::T;
  auto k = std::make_unique<T>();
  std::vector<std::pair<std::unique_ptr<T>, std::vector<double>>> copies;  // with what they showed when made
  std::vector<uint64_t> seeds;
  const int steps = r.range(3, M().thorough ? 25 : 12);
  uint64_t h = hashBytes(A::name(), strlen(A::name()));
  std::string D = A::name();
  int fits = 0;
  Data last;
  for (int i = 0; i < steps; ++i) {
    const int what = r.range(0, 9);
    h = hashI(h, uint64_t(what));
    if (what <= 4) {
      // Shifted invalid data stay invalid, whatever the rounding: their times are equal or in the wrong order.
      const Data d = fits > 0 && r.chance(0.35) ? variation(r, last) : randomData(r, true);
      last = d;
      const int how = r.range(0, A::overloads - 1);
      D += d.valid ? " fit" : " failed-fit"; D += std::to_string(how) + list(d.t);
      A::fit(*k, d, how);
      T fresh;
      A::fit(fresh, d, how);
      const uint64_t s = r.u64();
      same("refit_equals_fresh", A::look(*k, Rng(s)), A::look(fresh, Rng(s)), scale(d), D);
      same("refit_behaves_like_fresh", A::play(*k, Rng(s)), A::play(fresh, Rng(s)), scale(d), D);
      count(d.valid ? "valid_fits" : "failed_fits");
      ++fits;
      h = hashD(h, d.x.empty() ? 0.0 : d.x[0]);
    } else if (what == 5) {
      D += " clear";
      A::clear(*k);
      T fresh;
      const uint64_t s = r.u64();
      same("clear_equals_fresh", A::look(*k, Rng(s)), A::look(fresh, Rng(s)), 1, D);
      same("clear_behaves_like_fresh", A::play(*k, Rng(s)), A::play(fresh, Rng(s)), 1, D);
    } else if (what <= 7) {
      D += " use";
      for (int j = r.range(1, 4); j > 0; --j) A::noise(*k, r);
    } else {
      const uint64_t s = r.u64();
      const int how = r.range(0, 3);
      D += " copy" + std::to_string(how);
      auto c = how == 0 ? std::make_unique<T>(*k) : std::make_unique<T>();
      if (how == 1) *c = *k;
      if (how >= 2) { A::fit(*c, randomData(r, false), 0); *c = *k; }
      same("copy_equals_source", A::look(*c, Rng(s)), A::look(*k, Rng(s)), 1, D);
      if (r.chance(0.5)) std::swap(c, k);  // continue on the copy, keep the original
      auto seen = A::look(*c, Rng(s));
      seeds.push_back(s);
      copies.emplace_back(std::move(c), std::move(seen));
      if (r.chance(0.2)) { k = std::make_unique<T>(*copies.back().first); D += " replace"; }
    }
    for (size_t j = 0; j < copies.size(); ++j) same("copies_unaffected", A::look(*copies[j].first, Rng(seeds[j])), copies[j].second, 1, D);
  }
  k.reset();  // destruction of the original
  for (size_t j = 0; j < copies.size(); ++j) same("copies_unaffected", A::look(*copies[j].first, Rng(seeds[j])), copies[j].second, 1, D);
  if (fits > 1) { nontrivial(h); sample(D.substr(0, 400)); }
  count(A::name());
}

int main(int argc, char** argv) {
  return run(argc, argv, "C10", [](Rng& r, uint64_t id) {
    switch (id % 8) {
      case 0: history<Cont<5>>(r); break;
      case 1: history<Cont<3>>(r); break;
      case 2: history<Cont<4>>(r); break;
      case 3: history<Cont<1>>(r); break;
      case 4: history<Cont<2>>(r); break;
      case 5: case 6: history<Scal>(r); break;
      default: history<Vect>(r);
    }
  });
}
