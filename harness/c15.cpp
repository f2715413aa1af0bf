// C15: arbitrary valid call sequences over all classes; the deciding monitors are the sanitizers, debug containers and memcheck.
#include <memory>
#include <glog/logging.h>
#include <curves/PolynomialSplineScalarCurve.hpp>
#include <curves/PolynomialSplineVectorSpaceCurve.hpp>
#include <curves/helpers.hpp>
#include "mgr.hpp"
#include "orders.hpp"
using namespace curves;
using namespace mon;

// Every returned number is looked at, so that memcheck notices undefined ones.
inline void use(double d, const char* what) {
  static volatile double sink;
  evald();
  if (std::isfinite(d)) sink = d; else MON_FAIL(what << " returned " << d << " for finite inputs");
}
inline void knotData(Rng& r, std::vector<double>& t, std::vector<double>& x) {
  const int n = r.chance(0.15) ? r.range(0, 1) : r.chance(0.01) ? r.range(10, 40) : r.range(2, 9);
  t.clear();
  if (n > 0) t = gen::knotsAnySpacing(r, n, 0.1, 4.0, gen::startTime(r));
  x = gen::values(r, n, r.logreal(0.1, 30));
  if (r.chance(0.25)) switch (r.below(5)) {  // invalid lists are valid use
    case 0: if (n) x.pop_back(); break;
    case 1: x.push_back(1); break;
    case 2: if (n > 1) t[size_t(n - 1)] = t[size_t(n - 2)]; break;
    case 3: if (n > 1) std::swap(t.front(), t.back()); break;
    default: x.clear(); break;
  }
}

#ifndef C15_PART0
template <int N>
void oneOrder(Rng& r) {
  using S = PolynomialSpline<N>;
  using K = PolynomialSplineContainer<N>;
  std::vector<std::unique_ptr<K>> ks;
  std::vector<S> ss(r.below(3));
  ks.emplace_back(new K());
  uint64_t h = hashI(1469598103934665603ull, N);
  auto spline = [&]() -> S {
    switch (r.below(4)) {
      case 0: return S();
      case 1: { typename S::SplineCoefficients c; for (auto& q : c) q = r.value(3); return S(c, r.chance(0.1) ? 0.0 : r.real(0.01, 3)); }
      case 2: { SplineOptions o(r.real(0.1, 5), r.value(3), r.value(3), r.value(3), r.value(3), r.value(3), r.value(3)); return S(o); }
      default: return S(SplineOptions(r.real(0.1, 5), r.value(3), r.value(3), r.value(3), r.value(3), r.value(3), r.value(3)));
    }
  };
  auto time = [&]() { static const double far[] = {0.0, -1e300, 1e300, 5e-324, -5e-324, 1e9}; return r.chance(0.1) ? far[r.below(6)] : r.real(-2, 12); };
  const int steps = r.range(3, M().thorough ? 60 : 30);
  for (int i = 0; i < steps; ++i) {
    K& k = *ks[r.below(uint32_t(ks.size()))];
    const int what = r.range(0, 18);
    h = hashI(h, uint64_t(what));
    switch (what) {
      case 0: k.addSpline(spline()); break;
      case 1: { const S s = spline(); k.addSpline(s); break; }
      case 2: { S s = spline(); k.addSpline(std::move(s)); break; }
      case 3: case 4: {
        std::vector<double> t, x;
        knotData(r, t, x);
        switch (r.below(3)) { case 0: k.setData(t, x); break; case 1: k.setData(t, x, r.value(3), r.value(3)); break; default: k.setData(t, x, r.value(3), r.value(3), r.value(3), r.value(3)); }
        count("fits");
        break; }
      case 5: k.advance(r.chance(0.2) ? 1e6 : r.chance(0.1) ? 0.0 : r.chance(0.1) ? -r.real(0, 3) : r.real(0, 3)); break;
      case 6: k.setContainerTime(time()); break;
      case 7: r.chance(0.4) ? k.reset() : k.resetTime(); break;
      case 8: k.reserveSplines(r.below(40)); if (r.chance(0.05)) { for (int j = r.range(50, 600); j > 0; --j) k.addSpline(spline()); count("large_containers"); } break;
      case 9: { if (r.chance(0.5)) ks.emplace_back(new K(k)); else { ks.emplace_back(new K()); *ks.back() = k; } if (ks.size() > 4) ks.erase(ks.begin()); count("copies"); continue; }
      case 10: { K tmp(std::move(k)); k = std::move(tmp); count("moves"); break; }
      case 11: { double off = 0; const int a = k.getActiveSplineIndexAtTime(time(), off); if (!k.isEmpty()) use(off, "offset"); MON_CHECK(a >= -1 && a < std::max(1, int(k.getSplines().size())), "active segment " << a << " of " << k.getSplines().size()); break; }
      case 12: if (!k.isEmpty()) { S* s = k.getSpline(int(r.below(uint32_t(k.getSplines().size())))); use(s->getPositionAtTime(time()), "position"); use((*s->getCoefficientsPtr())[0], "coefficient"); } break;
      case 13: use(k.getEndPosition(), "end position"); use(k.getEndVelocity(), "end velocity"); use(k.getEndAcceleration(), "end acceleration"); if (k.isEmpty()) count("empty_evaluations"); break;
      case 14: { S s = spline(); ss.push_back(s); if (ss.size() > 5) ss.erase(ss.begin()); if (r.chance(0.3)) { SplineOptions o(r.real(0.1, 5), 1, 2, 3, 4, 5, 6); ss[0].computeCoefficients(o); } if (r.chance(0.3)) ss[0] = ss.back(); break; }
      case 15: { typename S::EigenTimeVectorType v = S::EigenTimeVectorType::Zero(); const double t = r.real(-3, 3);
        S::getTimeVector(v, t); use(v.sum(), "time vector"); S::addDiffTimeVector(v, t); S::addDDiffTimeVector(v, t); use(v.sum(), "time vector"); S::getTimeVectorAtZero(v); S::getDiffTimeVectorAtZero(v); S::getDDiffTimeVectorAtZero(v); use(v.sum(), "time vector");
        S::getTimeVector(Eigen::Ref<typename S::EigenTimeVectorType>(v), t); S::getDTimeVector(v, t); S::getDDTimeVector(v, t); use(v.sum(), "time vector"); count("time_vectors"); break; }
      default: break;
    }
    if (r.chance(0.6)) {
      const double t = time();
      use(k.getPositionAtTime(t), "position"); use(k.getVelocityAtTime(t), "velocity"); use(k.getAccelerationAtTime(t), "acceleration");
      use(k.getPosition(), "clock position"); use(k.getVelocity(), "clock velocity"); use(k.getAcceleration(), "clock acceleration");
      use(k.getContainerDuration(), "duration"); use(k.getContainerTime(), "time");
      if (k.checkContainer()) count("selfchecks");
      if (k.isEmpty()) count("empty_evaluations");
    }
    for (const S& s : ss) { use(s.getPositionAtTime(time()), "position"); use(s.getVelocityAtTime(time()), "velocity"); use(s.getAccelerationAtTime(time()), "acceleration"); use(s.getSplineDuration(), "duration"); }
  }
  count("container_histories");
  nontrivial(h);
}
#endif

#if PART == 0
template <class VC, int D>
static void vectorOps(Rng& r, VC& c) {
  std::vector<double> t, x;
  knotData(r, t, x);
  std::vector<typename VC::ValueType> w;
  for (double q : x) { typename VC::ValueType v; for (int j = 0; j < D; ++j) v(j) = q + j; w.push_back(v); }
  typename VC::DerivativeType a, b; a.setConstant(r.value(3)); b.setConstant(r.value(3));
  try {
    switch (r.below(3)) {
      case 0: c.fitCurve(t, w); break;
      case 1: c.fitCurve(t, w, a, b, b, a); break;
      default: { std::vector<typename VC::DerivativeType> f(w.size(), a), g(w.size(), b); c.fitCurve(t, w, f, g); }
    }
  } catch (const std::out_of_range&) { MON_CHECK(w.size() < t.size(), "out of range for " << t.size() << " times, " << w.size() << " values"); count("short_value_lists_rejected"); }
}
static void curveHistory(Rng& r) {
  using SC = PolynomialSplineQuinticScalarCurve;
  using V3 = PolynomialSplineQuinticVector3Curve;
  using V1 = PolynomialSplineVectorSpaceCurve<PolynomialSplineQuintic, 1>;
  SC s; V3 v; V1 u;
  std::unique_ptr<SC> s2; std::unique_ptr<V3> v2;
  std::vector<double> t, x;
  uint64_t h = 99;
  const int steps = r.range(3, M().thorough ? 50 : 25);
  for (int i = 0; i < steps; ++i) {
    const int what = r.range(0, 12);
    h = hashI(h, uint64_t(what));
    double y = 0; V3::ValueType z(0, 0, 0); V1::ValueType o; o.setZero();
    switch (what) {
      case 0: knotData(r, t, x); s.fitCurve(t, x); break;
      case 1: knotData(r, t, x); s.fitCurve(t, x, r.value(3), r.value(3), r.value(3), r.value(3)); break;
      case 2: { std::vector<SplineOptions> l; for (int j = (r.chance(0.1) ? r.range(6, 40) : r.range(0, 5)); j > 0; --j) l.emplace_back(r.real(0.1, 3), r.value(3), r.value(3), r.value(3), r.value(3), r.value(3), r.value(3)); s.fitCurve(l); break; }
      case 3: case 4: vectorOps<V3, 3>(r, v); break;
      case 5: vectorOps<V1, 1>(r, u); break;
      case 6: if (r.chance(0.4)) s.clear(); if (r.chance(0.4)) v.clear(); if (r.chance(0.4)) u.clear(); break;
      case 7: s2.reset(new SC(s)); v2.reset(new V3(v)); break;
      case 8: if (s2) { s = *s2; v = *v2; } break;
      case 9: s2.reset(); v2.reset(); break;
      default: break;
    }
    const double q = r.chance(0.05) ? 1e300 : r.real(-30, 30);
    MON_CHECK(s.evaluate(y, q), "evaluate"); use(y, "scalar evaluate");
    MON_CHECK(v.evaluate(z, q) && u.evaluate(o, q), "evaluate"); use(z.sum(), "vector evaluate"); use(o.sum(), "vector evaluate");
    for (unsigned d = 1; d <= 2; ++d) { MON_CHECK(s.evaluateDerivative(y, q, d) && v.evaluateDerivative(z, q, d) && u.evaluateDerivative(o, q, d), "derivative"); use(y, "scalar derivative"); use(z.sum(), "vector derivative"); use(o.sum(), "vector derivative"); }
    use(s.getMinTime() + s.getMaxTime() + v.getMinTime() + v.getMaxTime(), "time range");
    if (s2) { s2->evaluate(y, q); use(y, "copy evaluate"); v2->evaluate(z, q); use(z.sum(), "copy evaluate"); }
    y = 0; s.evaluateDerivative(y, q, 3 + r.below(3));
  }
  count("curve_histories");
  nontrivial(h);
}
static void managerHistory(Rng& r) {
  using T = mgr::Twin<Eigen::Vector3d>;
  std::vector<std::unique_ptr<T>> ts;
  ts.emplace_back(new T());
  uint64_t h = 7;
  const int style = r.range(0, 4), steps = r.range(3, M().thorough ? 120 : 50);
  if (r.chance(0.01)) ts[0]->bulk(r, r.range(100, 500));
  for (int i = 0; i < steps; ++i) {
    T& x = *ts[r.below(uint32_t(ts.size()))];
    const std::string w = x.step(r, style);
    h = hashBytes(w.data(), w.size(), h);
    if (r.chance(0.1)) { ts.emplace_back(new T(x)); if (ts.size() > 4) ts.erase(ts.begin()); count("manager_copies"); continue; }
    if (r.chance(0.05)) { ts[0]->m = x.m; ts[0]->ref = x.ref; ts[0]->dead = x.dead; ts[0]->lastDead = x.lastDead; }
    T::Mgr::CoefficientIter a, b;
    const double q = mgr::randomTime(r, style);
    if (x.m.getCoefficientsAt(q, &a, &b)) { use(a->second.coefficient.sum() + b->second.coefficient.sum(), "coefficients"); use(a->first, "time"); }
    T::Mgr::CoefficientMap m;
    x.m.getCoefficientsInRange(q, q + r.real(-1, 5), &m);
    for (auto& e : m) use(e.second.sum(), "range");
    std::vector<double> times;
    if (q >= x.m.getMinTime()) { x.m.getTimesInWindow(&times, q, x.m.getMaxTime()); for (double d : times) use(d, "window"); }
    if (r.chance(0.3)) x.compare(r);
    x.m.print("x");
  }
  count("manager_histories");
  nontrivial(h);
}
static void csvHistory(Rng& r) {
  const std::string f = M().scratch + "/m.csv";
  const int rows = r.chance(0.02) ? r.range(50, 300) : r.range(1, 6), cols = r.chance(0.05) ? r.range(10, 60) : r.range(1, 5);
  std::vector<std::vector<std::string>> m;
  for (int i = 0; i < rows; ++i) { m.emplace_back(); for (int j = 0; j < cols + 2; ++j) m.back().push_back(r.chance(0.1) ? "x" : num(r.value(1e3))); }
  if (r.chance(0.3)) m[0][size_t(r.below(uint32_t(cols)))] = "";
  writeCSV(f, m);
  std::vector<double> t, t2; std::vector<Eigen::VectorXd> v;
  loadTimeVectorCSV(f, &t, &v);
  for (auto& q : v) use(q.sum(), "csv");
  loadTimeTimeVectorCSV(f, &t, &t2, &v);
  for (auto& q : v) use(q.sum(), "csv");
  for (double d : t) use(d, "csv"); for (double d : t2) use(d, "csv");
  writeTimeVectorCSV(f, t, v);
  loadTimeVectorCSV(f, &t, &v);
  for (auto& q : v) use(q.sum(), "csv");
  count("csv_histories");
  nontrivial(hashD(uint64_t(rows * 16 + cols), v[0](0) + t[0]));
}
#endif
ORDERS_MAIN("C15", switch (id % 8) { case 0: case 1: curveHistory(r); break; case 2: case 3: managerHistory(r); break; case 4: csvHistory(r); break; default: runOrder(r.range(1, 5), r); })
