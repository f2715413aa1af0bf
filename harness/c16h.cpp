// C16, second part: Hermite curves shared by many threads, sampling policies and exports on separate curves.
#include "hermite.hpp"
#include <atomic>
#include <thread>
#include "curves/SlerpSE3Curve.hpp"
#include "readers.hpp"
using namespace her;
using mon::count;
typedef curves::CubicHermiteE3Curve E3;
typedef curves::CubicHermiteSE3Curve SE3C;

static int knotCount(Rng& r) { return r.chance(0.1) ? r.range(20, 150) : r.chance(0.06) ? 0 : r.range(1, 12); }
template <class K> static double timeAt(const K& k, double u, const std::vector<double>& t) {  // mostly inside, sometimes outside
  const double a = k.getMinTime(), b = k.getMaxTime();
  return timeFor(u, a - 0.3 * (b - a), a + 1.3 * (b - a), t);
}

struct E3Q {
  static const char* name() { return "position Hermite curve"; }
  static const int width = 4, kinds = 6;
  E3 k;
  std::vector<double> t;
  bool empty() const { return t.empty(); }
  explicit E3Q(Rng& r) {
    const int n = knotCount(r);
    if (!n) return;
    std::vector<V3> p;
    for (int i = 0; i < n; ++i) p.push_back(vec(r, 3));
    t = gen::knotsAnySpacing(r, n, 0.1, 2, gen::startTime(r));
    if (n >= 2 && r.chance(0.3)) { p.back() = p.front(); k.fitPeriodicCurve(t, p); } else k.fitCurveWithDerivatives(t, p, vec(r, 2), vec(r, 2));
  }
  void query(int kind, double u, double* o) const {
    const double t = kind == 5 ? k.getMinTime() : timeAt(k, u, this->t);
    V3 v = V3::Zero();
    switch (kind) {
      case 0: case 5: o[3] = k.evaluate(v, t); break;
      case 1: o[3] = k.evaluateDerivative(v, t, u < 0.1 ? 3 : 1); break;
      case 2: o[3] = k.evaluateDerivative(v, t, 2); break;
      case 3: o[3] = k.evaluateLinearAcceleration(v, t); break;
      default: v = V3(k.getMinTime(), k.getMaxTime(), k.isEmpty()); o[3] = k.size(); break;
    }
    if (o[3]) for (int i = 0; i < 3; ++i) o[i] = v[i];
  }
};
struct SE3Q {
  static const char* name() { return "rigid-body Hermite curve"; }
  static const int width = 8, kinds = 6;
  SE3C k;
  std::vector<double> t;
  bool empty() const { return t.empty(); }
  explicit SE3Q(Rng& r) {
    const int n = knotCount(r);
    if (!n) return;
    auto p = poses(r, n);
    t = gen::knotsAnySpacing(r, n, 0.1, 2, gen::startTime(r));
    if (n >= 2 && r.chance(0.3)) { p.back() = p.front(); k.fitPeriodicCurve(t, p); } else k.fitCurveWithDerivatives(t, p, TwistG(vec(r, 2), vec(r, 1)), TwistG(vec(r, 2), vec(r, 1)));
  }
  void query(int kind, double u, double* o) const {
    const double t = kind == 4 ? k.getMinTime() : timeAt(k, u, this->t);
    switch (kind) {
      case 0: case 4: { Pose x; o[7] = k.evaluate(x, t); if (o[7]) { for (int i = 0; i < 3; ++i) o[i] = x.getPosition().vector()[i]; for (int i = 0; i < 4; ++i) o[3 + i] = x.getRotation().vector()[i]; } break; }
      case 1: { TwistG w; o[7] = k.evaluateDerivative(w, t, 1); if (o[7]) for (int i = 0; i < 3; ++i) { o[i] = w.getTranslationalVelocity().vector()[i]; o[3 + i] = w.getRotationalVelocity().vector()[i]; } break; }
      case 2: { std::vector<double> ts; k.getCurveTimes(&ts); for (double q : ts) o[0] += q; o[1] = k.size(); break; }
      case 5: { TwistG w; o[7] = k.evaluateDerivative(w, t, u < 0.3 ? 0 : u < 0.6 ? 2 : 3); break; }
      default: o[0] = k.getMinTime(); o[1] = k.getMaxTime(); o[2] = k.isEmpty(); break;
    }
  }
};

static double unrelated(Rng& r) {
  double s = 0;
  const int n = r.range(2, 6);
  const auto t = gen::knotsAnySpacing(r, n, 0.2, 2, 1);
  switch (r.below(4)) {
    case 0: { SE3C c; c.fitCurve(t, poses(r, n)); Pose x; c.evaluate(x, t[0] + 0.1); s = x.getPosition().x(); c.transformCurve(pose(r, 3)); c.evaluate(x, t[1]); s += x.getRotation().w(); c.clear(); break; }
    case 1: { E3 c; std::vector<V3> p; for (int i = 0; i < n; ++i) p.push_back(vec(r, 3)); c.fitCurve(t, p); V3 x; c.evaluateDerivative(x, t[1], 1); s = x[0]; break; }
    case 2: { SE3C c; curves::SamplingPolicy policy(r.range(1, 3), 0.0); policy.extend<SE3C, SE3C::ValueType>(t, poses(r, n), &c, nullptr); s = c.size() + c.getMaxTime(); break; }
    default: {
      static std::atomic<int> serial(0);
      const std::string f = mon::M().scratch + "/h" + std::to_string(serial.fetch_add(1, std::memory_order_relaxed)) + ".csv";
      SE3C c; c.fitCurve(t, poses(r, n)); c.saveCurveTimesAndValues(f); c.writeEvalToFile(f, 4); unlink(f.c_str()); s = c.size();
    }
  }
  return s;
}

int main(int argc, char** argv) {
  quietCerr();
  return mon::run(argc, argv, "C16", [](Rng& r, uint64_t) { if (r.chance(0.4)) shared<E3Q>(r, unrelated); else shared<SE3Q>(r, unrelated); });
}
