// C16: shared objects evaluated by many threads through their const interface, separate objects used in any way, under
// ThreadSanitizer; every concurrent result is compared bit for bit with the single-threaded one.
#include <glog/logging.h>
#include <atomic>
#include <memory>
#include <thread>
#include <curves/PolynomialSplineScalarCurve.hpp>
#include <curves/PolynomialSplineVectorSpaceCurve.hpp>
#include <curves/LocalSupport2CoefficientManager.hpp>
#include <curves/helpers.hpp>
#include "gen.hpp"
#include "readers.hpp"
using namespace curves;
using namespace mon;
using Mgr = LocalSupport2CoefficientManager<Eigen::Vector3d>;
using VC = PolynomialSplineQuinticVector3Curve;
using SC = PolynomialSplineQuinticScalarCurve;

template <int N> struct ContQ {
  static const char* name() { return "container"; }
  PolynomialSplineContainer<N> k;
  std::vector<double> ends;
  bool empty() const { return k.isEmpty(); }
  explicit ContQ(Rng& r) {
    if (r.chance(0.06)) return;
    const int n = r.chance(0.1) ? r.range(9, 40) : r.range(2, 8);
    if (r.chance(0.5)) { const auto t = gen::knotsAnySpacing(r, n, 0.2, 2, 0); const auto x = gen::values(r, n, 3); k.setData(t, x, r.value(2), r.value(2), r.value(2), r.value(2)); }
    else for (int i = 0; i < n; ++i) { typename PolynomialSpline<N>::SplineCoefficients c; for (auto& q : c) q = r.value(2); k.addSpline(PolynomialSpline<N>(c, r.real(0.1, 2))); }
    if (r.chance(0.7)) k.advance(r.real(0, k.getContainerDuration()));
    double e = 0;
    ends.push_back(e);
    for (const auto& s : k.getSplines()) ends.push_back(e += s.getSplineDuration());
  }
  static const int width = 4, kinds = 10;
  void query(int kind, double u, double* o) const {
    const double t = timeFor(u, -1, k.getContainerDuration() + 1, ends);
    if (kind >= 8 && k.isEmpty()) kind = 4;
    double off = 0;
    switch (kind) {
      case 0: o[0] = k.getPositionAtTime(t); break;
      case 1: o[0] = k.getVelocityAtTime(t); break;
      case 2: o[0] = k.getAccelerationAtTime(t); break;
      case 3: o[0] = k.getActiveSplineIndexAtTime(t, off); o[1] = off; break;
      case 4: o[0] = k.getPosition(); o[1] = k.getVelocity(); o[2] = k.getAcceleration(); break;
      case 5: o[0] = k.getEndPosition(); o[1] = k.getEndVelocity(); o[2] = k.getEndAcceleration(); break;
      case 6: o[0] = k.getContainerDuration(); o[1] = k.getContainerTime(); o[2] = k.isEmpty(); break;
      case 7: o[0] = k.checkContainer(); o[1] = k.getActiveSplineIndex(); break;
      case 8: { const auto& s = k.getSplines()[size_t(u * 0.999 * double(k.getSplines().size()))]; o[0] = s.getPositionAtTime(t); o[1] = s.getVelocityAtTime(t); o[2] = s.getAccelerationAtTime(t); o[3] = s.getSplineDuration(); break; }
      default: { const auto& s = k.getSplines().back(); o[0] = s.getCoefficients()[0]; o[1] = s.getCoefficients()[N]; break; }
    }
  }
};
struct ScalQ {
  static const char* name() { return "scalar curve"; }
  SC k;
  std::vector<double> t;
  bool empty() const { return t.empty(); }
  explicit ScalQ(Rng& r) { const int n = r.chance(0.1) ? r.range(9, 30) : r.range(2, 8); t = gen::knotsAnySpacing(r, n, 0.2, 2, gen::startTime(r)); k.fitCurve(t, gen::values(r, n, 3), r.value(2), r.value(2), r.value(2), r.value(2)); }
  static const int width = 4, kinds = 5;
  void query(int kind, double u, double* o) const {
    const double t = timeFor(u, k.getMinTime() - 1, k.getMaxTime() + 1, this->t);
    switch (kind) {
      case 0: o[1] = k.evaluate(o[0], t); break;
      case 1: case 2: o[1] = k.evaluateDerivative(o[0], t, unsigned(kind)); break;
      case 3: o[1] = k.evaluateDerivative(o[0], t, 3); break;
      default: o[0] = k.getMinTime(); o[1] = k.getMaxTime(); break;
    }
  }
};
struct VectQ {
  static const char* name() { return "vector curve"; }
  VC k;
  std::vector<double> t;
  bool empty() const { return t.empty(); }
  explicit VectQ(Rng& r) {
    const int n = r.range(2, 8);
    std::vector<VC::ValueType> w;
    for (int i = 0; i < n; ++i) w.push_back(VC::ValueType(r.value(3), r.value(3), r.value(3)));
    t = gen::knotsAnySpacing(r, n, 0.2, 2, gen::startTime(r));
    k.fitCurve(t, w);
  }
  static const int width = 4, kinds = 4;
  void query(int kind, double u, double* o) const {
    const double t = timeFor(u, k.getMinTime() - 1, k.getMaxTime() + 1, this->t);
    VC::ValueType y(0, 0, 0);
    switch (kind) {
      case 0: o[3] = k.evaluate(y, t); break;
      case 1: case 2: o[3] = k.evaluateDerivative(y, t, unsigned(kind)); break;
      default: y << k.getMinTime(), k.getMaxTime(), 0; break;
    }
    o[0] = y(0); o[1] = y(1); o[2] = y(2);
  }
};
struct MgrQ {
  static const char* name() { return "coefficient manager"; }
  Mgr k;
  std::vector<Key> keys;
  std::vector<double> t;
  bool empty() const { return t.empty(); }
  explicit MgrQ(Rng& r) { const int n = r.chance(0.06) ? 0 : r.chance(0.1) ? r.range(50, 400) : r.range(1, 30); if (n) t = gen::knotsAnySpacing(r, n, 0.1, 2, gen::startTime(r)); for (double t : t) keys.push_back(k.insertCoefficient(t, Eigen::Vector3d(r.value(3), r.value(3), r.value(3)))); }
  static const int width = 4, kinds = 9;
  void query(int kind, double u, double* o) const {
    const double t = timeFor(u, k.getMinTime() - 0.5, k.getMaxTime() + 0.5, this->t);
    const Key key = keys.empty() ? Key(1) : keys[size_t(u * 0.999 * double(keys.size()))];
    switch (kind) {
      case 0: { Mgr::CoefficientIter a, b; if ((o[0] = k.getCoefficientsAt(t, &a, &b))) { o[1] = a->first; o[2] = b->first; o[3] = a->second.coefficient(1) + double(b->second.key); } break; }
      case 1: { if (keys.empty()) break; const Eigen::Vector3d c = k.getCoefficientByKey(key); o[0] = c(0); o[1] = c(1); o[2] = c(2); o[3] = k.getCoefficientTimeByKey(key); break; }
      case 2: { std::vector<double> ts; k.getTimes(&ts); for (double q : ts) o[0] += q; o[1] = double(ts.size()); break; }
      case 3: { std::vector<Key> ks; k.getKeys(&ks); for (Key q : ks) o[0] += double(q); o[1] = double(ks.size()); k.appendKeys(&ks); o[2] = double(ks.size()); break; }
      case 4: { Mgr::CoefficientMap m; k.getCoefficientsInRange(t, t + 1, &m); o[0] = double(m.size()); Mgr::CoefficientMap all; k.getCoefficients(&all); o[1] = double(all.size()); break; }
      case 5: { Mgr::CoefficientMap m; k.getCoefficientsInRange(t, t, &m); o[0] = double(m.size()); m.clear(); k.getCoefficientsInRange(t, t - 0.4, &m); o[1] = double(m.size()); m.clear(); k.getCoefficientsInRange(t - 3, t, &m); o[2] = double(m.size()); break; }
      case 6: o[0] = k.hasCoefficientAtTime(t); o[1] = k.hasCoefficientWithKey(key); o[2] = double(k.size()); { Mgr::CoefficientIter it; o[3] = 0; for (it = k.coefficientBegin(); it != k.coefficientEnd(); ++it) o[3] += it->second.coefficient(0); } break;
      case 7: o[0] = k.getMinTime(); o[1] = k.getMaxTime(); o[2] = k.empty(); o[3] = k.equals(k); break;
      default: {
        Mgr copy(k);
        o[0] = double(copy.size()); o[1] = copy.equals(k);
        std::vector<double> ts;
        if (u < 0.3) ts.assign(3, 1.0);
        if (!this->t.empty()) k.getTimesInWindow(&ts, u > 0.8 ? k.getMaxTime() : std::min(std::max(t, k.getMinTime()), k.getMaxTime()), k.getMaxTime());
        o[2] = double(ts.size());
        k.checkInternalConsistency();
        break; }
    }
  }
};

// unrelated objects, used arbitrarily by one thread
static double unrelated(Rng& r) {
  double s = 0, y = 0;
  const int n = r.range(2, 6);
  const auto t = gen::knotsAnySpacing(r, n, 0.2, 2, gen::startTime(r)); const auto x = gen::values(r, n, 3);
  switch (r.below(6)) {
    case 5: {  // files
      static std::atomic<int> serial(0);
      const std::string f = M().scratch + "/u" + std::to_string(serial.fetch_add(1, std::memory_order_relaxed)) + ".csv";
      std::vector<Eigen::VectorXd> v(t.size(), Eigen::VectorXd::Constant(2, x[0])), w;
      std::vector<double> ts;
      writeTimeVectorCSV(f, t, v);
      loadTimeVectorCSV(f, &ts, &w);
      unlink(f.c_str());
      s = ts.size() == t.size() ? ts.back() + w.back()(1) : -1e9;
      break; }
    case 0: { PolynomialSplineContainer<3> k; k.setData(t, x, 1, 2); while (k.advance(0.3)) s += k.getPosition(); break; }
    case 1: { PolynomialSplineContainer<5> k; k.setData(t, x, 1, 2, 3, 4); s = k.getPositionAtTime(0.3); k.reset(); break; }
    case 2: { SC c; c.fitCurve(t, x); c.evaluate(y, t[0]); s += y; c.fitCurve(t, x, 1, 1, 1, 1); c.evaluateDerivative(y, t[1], 2); s += y; c.clear(); break; }
    case 3: { Mgr m; for (int i = 0; i < 20; ++i) m.insertCoefficient(r.range(0, 12), Eigen::Vector3d(1, 2, 3)); std::vector<double> ts; m.getTimes(&ts); for (double q : ts) m.removeCoefficientAtTime(q); s = double(m.size()); break; }
    default: { VC c; std::vector<VC::ValueType> w(size_t(n), VC::ValueType(1, 2, 3)); c.fitCurve(t, w); VC::ValueType v; c.evaluate(v, t[1]); s = v(0); break; }
  }
  return s;
}

int main(int argc, char** argv) {
  return run(argc, argv, "C16", [](Rng& r, uint64_t id) {
    switch (r.below(8)) {
      case 0: shared<ContQ<5>>(r, unrelated); break;
      case 1: shared<ContQ<3>>(r, unrelated); break;
      case 2: shared<ContQ<1>>(r, unrelated); break;
      case 3: shared<ContQ<2>>(r, unrelated); break;
      case 4: shared<ContQ<4>>(r, unrelated); break;
      case 5: shared<ScalQ>(r, unrelated); break;
      case 6: shared<VectQ>(r, unrelated); break;
      default: shared<MgrQ>(r, unrelated);
    }
  });
}
