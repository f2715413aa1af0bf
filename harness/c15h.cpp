// C15, second part: arbitrary histories on Hermite and slerp curves; the sanitizers and debug containers decide.
#include <memory>
#include "hermite.hpp"
#include "curves/SlerpSE3Curve.hpp"
using namespace her;
typedef curves::CubicHermiteE3Curve E3;
typedef curves::CubicHermiteSE3Curve SE3C;
class Slerp : public curves::SlerpSE3Curve {
 public:
  using curves::SlerpSE3Curve::evaluate;
  using curves::SlerpSE3Curve::evaluateDerivative;
  bool evaluate(ValueType&, curves::Time) const override { return false; }
  bool evaluateDerivative(DerivativeType&, curves::Time, unsigned) const override { return false; }
};
static void use(double d, const char* what) {
  static volatile double sink;
  mon::evald();
  if (std::isfinite(d)) sink = d; else MON_FAIL(what << " returned " << d << " for finite inputs");
}
static void use(const V3& v, const char* what) { for (int k = 0; k < 3; ++k) use(v[k], what); }
static int knotCount(Rng& r) { return r.chance(0.1) ? 0 : r.chance(0.15) ? 1 : r.chance(0.15) ? 2 : r.chance(0.02) ? r.range(30, 300) : r.range(3, 12); }
static std::vector<double> knotTimes(Rng& r, int n) { return n > 0 ? gen::knotsAnySpacing(r, n, 0.1, 4.0, gen::startTime(r)) : std::vector<double>(); }
// A time to ask for: any knot, its neighbours, in between, outside.
template <class C> static double askTime(Rng& r, const C& c) {
  const double a = c.getMinTime(), b = c.getMaxTime();
  switch (r.below(8)) {
    case 0: return a;
    case 1: return b;
    case 2: return std::nextafter(a, -1e300);
    case 3: return std::nextafter(b, 1e300);
    case 4: { static const double far[] = {-1e300, 1e300, 5e-324, 0, 1e9}; return far[r.below(5)]; }
    default: return r.real(a, b);
  }
}
static void ask(Rng& r, const E3& c) {
  for (int i = r.range(1, 4); i > 0; --i) {
    const double t = askTime(r, c);
    V3 x, v, a;
    const bool inside = !c.isEmpty() && t >= c.getMinTime() && t <= c.getMaxTime();
    if (c.evaluate(x, t)) { use(x, "position"); MON_CHECK(inside, "evaluates at " << t); } else { MON_CHECK(!inside, "refused at " << t); mon::count("refusals"); }
    if (c.evaluateDerivative(v, t, 1)) use(v, "velocity");
    if (c.evaluateDerivative(v, t, 2)) use(v, "second derivative");
    if (c.evaluateLinearAcceleration(a, t)) use(a, "acceleration");
    c.evaluateDerivative(v, t, 3 + r.below(4));
  }
}
static void ask(Rng& r, SE3C& c) {
  for (int i = r.range(1, 4); i > 0; --i) {
    const double t = askTime(r, c);
    Pose p; TwistG w; kindr::Acceleration3D a;
    const bool inside = !c.isEmpty() && t >= c.getMinTime() && t <= c.getMaxTime();
    if (c.evaluate(p, t)) { use(p.getPosition().vector(), "position"); for (int k = 0; k < 4; ++k) use(p.getRotation().vector()[k], "rotation"); MON_CHECK(inside, "evaluates at " << t); }
    else { MON_CHECK(!inside, "refused at " << t); mon::count("refusals"); }
    if (c.evaluateDerivative(w, t, 1)) { use(w.getTranslationalVelocity().vector(), "velocity"); use(w.getRotationalVelocity().vector(), "angular velocity"); }
    if (c.evaluateLinearAcceleration(a, t)) use(a.vector(), "acceleration");
    c.evaluateDerivative(w, t, 2 + r.below(4));
  }
}
template <class C> static void copies(Rng& r, std::vector<std::unique_ptr<C>>& cs) {
  C& c = *cs[r.below(uint32_t(cs.size()))];
  switch (r.below(5)) {
    case 0: cs.emplace_back(new C(c)); mon::count("copies"); break;
    case 1: *cs[0] = c; mon::count("assignments"); break;
    case 2: { C tmp(std::move(c)); c = std::move(tmp); mon::count("moves"); break; }
    case 3: { const C& same = c; c = same; break; }
    default: std::swap(*cs[0], c); break;
  }
  if (cs.size() > 4) cs.erase(cs.begin() + r.below(uint32_t(cs.size())));
}
static void e3(Rng& r) {
  std::vector<std::unique_ptr<E3>> cs;
  cs.emplace_back(new E3());
  uint64_t h = 31;
  for (int i = r.range(3, 20); i > 0; --i) {
    E3& c = *cs[r.below(uint32_t(cs.size()))];
    const int what = r.range(0, 8);
    h = mon::hashI(h, uint64_t(what));
    const int n = knotCount(r);
    const auto t = knotTimes(r, n);
    std::vector<V3> x;
    for (int k = 0; k < n; ++k) x.push_back(vec(r, 5));
    if (n) h = mon::hashD(h, t[0]);
    std::vector<curves::Key> keys(r.below(3)), *out = r.chance(0.3) ? &keys : nullptr;
    switch (what) {
      case 0: c.fitCurve(t, x, out); mon::count("fits"); break;
      case 1: c.fitCurveWithDerivatives(t, x, vec(r, 2), vec(r, 2), out); mon::count("fits"); break;
      case 2: if (n >= 2) { x.back() = x.front(); c.fitPeriodicCurve(t, x, out); mon::count("periodic_fits"); } break;
      case 3: c.clear(); break;
      case 4: c.print("x"); break;
      case 5: c.writeEvalToFile(mon::M().scratch + "/h.txt", r.range(0, 20)); mon::count("exports"); break;
      case 6: copies(r, cs); continue;
      default: break;
    }
    ask(r, c);
    if (c.isEmpty()) mon::count("empty_curves");
  }
  mon::count("e3_histories");
  mon::nontrivial(h);
}
static void se3(Rng& r) {
  std::vector<std::unique_ptr<SE3C>> cs;
  cs.emplace_back(new SE3C());
  SE3C grown;  // only ever extended, through its policy
  auto newPolicy = [&] { return curves::SamplingPolicy(r.range(1, 4), r.chance(0.5) ? 0 : r.real(0, 2)); };
  curves::SamplingPolicy policy = newPolicy();
  uint64_t h = 32;
  for (int i = r.range(3, 20); i > 0; --i) {
    SE3C& c = *cs[r.below(uint32_t(cs.size()))];
    const int what = r.range(0, 12);
    h = mon::hashI(h, uint64_t(what));
    const int n = knotCount(r);
    const auto t = knotTimes(r, n);
    auto p = poses(r, n);
    if (n) h = mon::hashD(h, t[0]);
    std::vector<curves::Key> keys(r.below(3)), *out = r.chance(0.3) ? &keys : nullptr;
    switch (what) {
      case 0: c.fitCurve(t, p, out); mon::count("fits"); break;
      case 1: c.fitCurveWithDerivatives(t, p, TwistG(vec(r, 1), vec(r, 1)), TwistG(vec(r, 1), vec(r, 1)), out); mon::count("fits"); break;
      case 2: if (n >= 2) { p.back() = p.front(); c.fitPeriodicCurve(t, p, out); mon::count("periodic_fits"); } break;
      case 3: c.clear(); break;
      case 4: c.print("x"); break;
      case 5: c.writeEvalToFile(mon::M().scratch + "/h.txt", r.range(0, 20)); mon::count("exports"); break;
      case 6: if (!c.isEmpty()) { c.saveCurveTimesAndValues(mon::M().scratch + "/h.csv"); std::vector<double> q; for (int k = r.range(1, 5); k > 0; --k) q.push_back(r.real(c.getMinTime(), c.getMaxTime())); c.saveCurveAtTimes(mon::M().scratch + "/h.csv", q); mon::count("exports"); } break;
      case 7: copies(r, cs); continue;
      case 8: c.transformCurve(pose(r, 5)); mon::count("transformations"); break;
      case 9: case 10: {  // measurements newer than the curve
        std::vector<double> ts; std::vector<Pose> ps;
        if (r.chance(0.1)) { grown.clear(); policy = newPolicy(); }
        double s = grown.isEmpty() ? gen::startTime(r) : grown.getMaxTime();
        for (int k = r.range(0, 8); k > 0; --k) { s += r.real(0.01, 1); ts.push_back(s); ps.push_back(pose(r, 5)); }
        policy.extend<SE3C, SE3C::ValueType>(ts, ps, &grown, nullptr);
        ask(r, grown);
        if (r.chance(0.3)) c = grown;
        mon::count("extends");
        break; }
      default: break;
    }
    ask(r, c);
    std::vector<double> times;
    c.getCurveTimes(&times);
    for (double d : times) use(d, "coefficient time");
    if (!times.empty()) { Pose x; c.evaluate(x, times[r.below(uint32_t(times.size()))]); use(x.getPosition().vector(), "position at a knot"); }
    if (times.size() > 1) { const TwistG w = c.calculateSlope(times[0], times[1], pose(r, 3), pose(r, 3)); use(w.getRotationalVelocity().vector(), "slope"); }
    if (c.isEmpty()) mon::count("empty_curves");
  }
  mon::count("se3_histories");
  mon::nontrivial(h);
}
static void slerp(Rng& r) {
  std::vector<std::unique_ptr<Slerp>> cs;
  cs.emplace_back(new Slerp());
  cs[0]->setSamplingRatio(r.range(1, 5));
  uint64_t h = 33;
  for (int i = r.range(3, 25); i > 0; --i) {
    Slerp& c = *cs[r.below(uint32_t(cs.size()))];
    const int what = r.range(0, 7);
    h = mon::hashI(h, uint64_t(what));
    const int n = knotCount(r);
    const auto t = knotTimes(r, n);
    const auto p = poses(r, n);
    std::vector<curves::Key> keys(r.below(3)), *out = r.chance(0.3) ? &keys : nullptr;
    switch (what) {
      case 0: c.fitCurve(t, p, out); break;
      case 1: c.setCurve(t, p); break;
      case 2: c.clear(); break;
      case 3: copies(r, cs); continue;
      default: {
        double s = c.isEmpty() ? gen::startTime(r) : c.getMaxTime();
        if (c.isEmpty() && r.chance(0.3)) c.extend(t, p, out);
        else for (int k = r.range(1, 6); k > 0; --k) { s += r.real(0.01, 1); c.extend({s}, {pose(r, 5)}, out); }
        mon::count("slerp_extends");
      }
    }
    std::vector<double> times;
    c.getCurveTimes(&times);
    for (double d : times) use(d, "coefficient time");
    MON_CHECK(times.size() == size_t(c.size()) && c.isEmpty() == times.empty(), "size " << c.size() << " with " << times.size() << " times");
    if (!times.empty()) { h = mon::hashD(h, times.back()); use(c.getMinTime() + c.getMaxTime(), "range"); }
  }
  mon::count("slerp_histories");
  mon::nontrivial(h);
}
static void oneCase(Rng& r, uint64_t id) { switch (id % 5) { case 0: case 1: e3(r); break; case 2: case 3: se3(r); break; default: slerp(r); } }
int main(int argc, char** argv) { quietCerr(); return mon::run(argc, argv, "C15", oneCase); }
