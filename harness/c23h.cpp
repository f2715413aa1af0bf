// C23, second part: misuse of Hermite and slerp curves, in forked processes, in a build without asserts.
#include "hermite.hpp"
#include "curves/SlerpSE3Curve.hpp"
#include <curves/PolynomialSplineScalarCurve.hpp>
#include <curves/PolynomialSplineVectorSpaceCurve.hpp>
#include "die.hpp"
using namespace her;
typedef curves::CubicHermiteE3Curve E3;
typedef curves::CubicHermiteSE3Curve SE3C;
class Slerp : public curves::SlerpSE3Curve {
 public:
  using curves::SlerpSE3Curve::evaluate;
  using curves::SlerpSE3Curve::evaluateDerivative;
  bool evaluate(ValueType&, curves::Time) const override { return false; }
  bool evaluateDerivative(DerivativeType&, curves::Time, unsigned) const override { return false; }
};
static void oneCase(Rng& r, uint64_t id) {
  const size_t n = size_t(r.chance(0.06) ? 0 : r.chance(0.1) ? r.range(13, 60) : r.range(1, 12));
  size_t m = n > 0 && r.chance(0.5) ? n - 1 - r.below(uint32_t(n)) : n + 1 + r.below(4);  // number of values: too few or too many
  const auto t = n > 0 ? gen::knots(r, int(n), 0.1, 2, gen::startTime(r)) : std::vector<double>();
  if (n == 0) count("values_without_times");
  std::vector<V3> x;
  for (size_t i = 0; i < m; ++i) x.push_back(vec(r, 3));
  x.shrink_to_fit();
  auto p = poses(r, int(std::max(n, m)));
  std::vector<Pose> q(p.begin(), p.begin() + long(m));
  const std::string d = std::to_string(n) + " times, " + std::to_string(m) + " values";
  E3 e; SE3C c; Slerp s;
  const auto t0 = gen::knots(r, 3, 0.1, 2, -50);
  if (r.chance(0.5)) { e.fitCurve(t0, {V3(1, 2, 3), V3(0, 0, 0), V3(1, 1, 1)}); c.fitCurve(t0, poses(r, 3)); s.fitCurve(t0, poses(r, 3)); }
  const int what = r.range(0, 10);
  switch (what) {
    case 0: mustDie("hermite_fit_lengths", d, [&] { if (r.chance(0.5)) e.fitCurve(t, x); else e.fitCurveWithDerivatives(t, x, V3(1, 0, 0), V3(0, 1, 0)); }); break;
    case 1: mustDie("hermite_fit_lengths", d, [&] { if (r.chance(0.5)) c.fitCurve(t, q); else c.fitCurveWithDerivatives(t, q, TwistG(), TwistG()); }); break;
    case 2: mustDie("periodic_fit_lengths", d, [&] { e.fitPeriodicCurve(t, x); }); break;
    case 3: mustDie("periodic_fit_lengths", d, [&] { c.fitPeriodicCurve(t, q); }); break;
    case 4: { const size_t k = n > 0 ? r.below(2) : 0; mustDie("periodic_fit_of_too_few", std::to_string(k) + " points", [&] {
      const std::vector<double> tt(t.begin(), t.begin() + long(k));
      if (r.chance(0.5)) e.fitPeriodicCurve(tt, std::vector<V3>(k, V3(1, 2, 3))); else c.fitPeriodicCurve(tt, std::vector<Pose>(k)); }); break; }
    case 5: mustDie("slerp_lengths", d, [&] { switch (r.below(3)) { case 0: s.fitCurve(t, q); break; case 1: s.setCurve(t, q); break; default: s.extend(t, q); } }); break;
    case 6: case 7: {  // measurements that are not newer than the curve
      const auto tt = gen::knots(r, r.range(2, 20), 0.1, 2, gen::startTime(r));
      const double back = r.chance(0.4) ? tt.back() : r.chance(0.5) ? tt[r.below(uint32_t(tt.size()))] : tt.back() - r.logreal(1e-6, 100);
      const auto pp = poses(r, int(tt.size()));
      if (what == 6) { SE3C k; curves::SamplingPolicy policy(r.range(1, 4), 0.0); policy.extend<SE3C, SE3C::ValueType>(tt, pp, &k, nullptr);
        mustDie("hermite_extend_into_the_past", mon::num(back), [&] { policy.extend<SE3C, SE3C::ValueType>({back}, {pp[0]}, &k, nullptr); }); }
      else { Slerp k; k.setSamplingRatio(1); k.fitCurve(tt, pp); mustDie("slerp_extend_into_the_past", mon::num(back), [&] { k.extend({back}, {pp[0]}); }); }
      break; }
    case 8: mustDie("missing_times_output", d, [&] { if (r.chance(0.5)) c.getCurveTimes(nullptr); else s.getCurveTimes(nullptr); }); break;
    case 9: {  // functions the library declares and does not implement must not pretend to have done something
      if (r.chance(0.5)) { e.fitCurve(gen::knots(r, 3, 0.1, 2, 0), {V3(1, 2, 3), V3(0, 0, 0), V3(1, 1, 1)}); c.fitCurve(gen::knots(r, 3, 0.1, 2, 0), poses(r, 3)); s.fitCurve(gen::knots(r, 3, 0.1, 2, 0), poses(r, 3)); }
      const double u = r.chance(0.5) ? c.getMinTime() : r.value(5);
      const unsigned o = r.below(4);
      curves::PolynomialSplineQuinticScalarCurve k;
      curves::PolynomialSplineQuinticVector3Curve w;
      if (r.chance(0.5)) { k.fitCurve({0.0, 1.0}, {1.0, 2.0}); w.fitCurve({0.0, 1.0}, {V3(1, 2, 3), V3(0, 0, 0)}); }
      curves::SE3Curve* both = r.chance(0.5) ? static_cast<curves::SE3Curve*>(&c) : &s;
      const int f = r.range(0, 22);
      mustDie("not_implemented", "function " + std::to_string(f), [&] {
        switch (f) {
          case 0: e.extend({u + 100}, {V3(1, 2, 3)}); break;
          case 1: c.extend({u + 100}, {p[0]}); break;
          case 2: k.extend({u + 100}, {1.0}, nullptr); break;
          case 3: w.extend({u + 100}, {V3(1, 2, 3)}, nullptr); break;
          case 4: k.transformCurve(1.0); break;
          case 5: w.transformCurve(V3(1, 2, 3)); break;
          case 6: { std::vector<curves::SplineOptions> opt; opt.emplace_back(1, 0, 1, 0, 0, 0, 0); w.fitCurve(opt, nullptr); break; }
          case 7: both->evaluateAngularVelocityA(u); break;
          case 8: both->evaluateAngularVelocityB(u); break;
          case 9: both->evaluateLinearVelocityA(u); break;
          case 10: both->evaluateLinearVelocityB(u); break;
          case 11: both->evaluateTwistA(u); break;
          case 12: both->evaluateTwistB(u); break;
          case 13: both->evaluateAngularDerivativeA(o, u); break;
          case 14: both->evaluateAngularDerivativeB(o, u); break;
          case 15: both->evaluateLinearDerivativeA(o, u); break;
          case 16: both->evaluateLinearDerivativeB(o, u); break;
          case 17: both->evaluateDerivativeA(o, u); break;
          case 18: both->evaluateDerivativeB(o, u); break;
          case 19: c.setTimeRange(u, u + 1); break;
          case 20: s.setTimeRange(u, u + 1); break;
          case 21: s.curves::SlerpSE3Curve::evaluate(u); break;
          default: s.curves::SlerpSE3Curve::evaluateDerivative(u, o); break;
        }
      });
      break; }
    default: {
      c.fitCurve(gen::knots(r, 3, 0.1, 2, 0), poses(r, 3));
      const std::string out = mon::M().scratch + "/missing/x.csv";
      mustDie("curve_file_unwritable", out, [&] { if (r.chance(0.5)) c.saveCurveTimesAndValues(out); else c.saveCurveAtTimes(out, {c.getMinTime()}); });
    }
  }
  mon::nontrivial(mon::hashD(mon::hashI(mon::hashI(77, uint64_t(what)), n * 100 + m), n > 0 ? t[0] : 0.0));
  if (id < 3) mon::sample("misuse of a Hermite or slerp curve: " + d);
}
int main(int argc, char** argv) { signal(SIGPIPE, SIG_IGN); quietCerr(); return mon::run(argc, argv, "C23", oneCase); }
