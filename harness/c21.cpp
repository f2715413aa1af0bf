// C21: which coefficients the sampling policies keep.
#include "hermite.hpp"
#include "curves/SlerpSE3Curve.hpp"
using namespace her;
typedef curves::CubicHermiteSE3Curve SE3C;

class Slerp : public curves::SlerpSE3Curve {  // the library class leaves the bool interface of Curve unimplemented
 public:
  using curves::SlerpSE3Curve::evaluate;
  using curves::SlerpSE3Curve::evaluateDerivative;
  bool evaluate(ValueType&, curves::Time) const override { return false; }
  bool evaluateDerivative(DerivativeType&, curves::Time, unsigned) const override { return false; }
};

static std::string times(const std::vector<double>& t) { return mon::list(t); }

// The velocity each kept coefficient is to have, as the policy is documented to set it.
struct Vel { V3 lin, ang; bool ambiguous; };
static Vel slopeOf(double t0, double t1, const Pose& a, const Pose& b) {
  const V3 w = slope(a.getRotation(), b.getRotation());
  return {V3((b.getPosition().vector() - a.getPosition().vector()) / (t1 - t0)), V3(w / (t1 - t0)), w.norm() > kAmbiguous};
}
static void hermite(Rng& r) {
  SE3C c;
  const int group = r.chance(0.1) ? r.range(7, 60) : r.range(1, 6);
  const double period = r.chance(0.4) ? 0.0 : r.chance(0.3) ? 0.25 * r.range(1, 8) : r.real(0, 3);
  curves::SamplingPolicy policy(group, period);
  if (r.chance(0.3)) { policy = curves::SamplingPolicy(); policy.setMinimumMeasurements(group); policy.setMinSamplingPeriod(period); }
  MON_CHECK(policy.getMinimumMeasurements() == group && policy.getMinSamplingPeriod() == period, "configuration of the policy");
  std::vector<double> kept;  // reference: permanent coefficients, then (maybe) the newest measurement
  std::vector<Pose> keptPose;
  std::vector<Vel> keptVel;
  bool newestTemporary = false;
  int since = 0;
  double lastPermanent = 0, t = gen::startTime(r);
  if (t < 0 && r.chance(0.5)) t = -t;
  const int n = r.chance(0.05) ? r.range(100, 300) : r.range(2, 40);
  uint64_t h = mon::hashD(mon::hashI(5, uint64_t(group)), period);
  for (int i = 0; i < n;) {
    if (i > 0 && r.chance(0.03)) {  // the same policy goes on with an empty curve
      c.clear();
      MON_CHECK(c.isEmpty() && c.size() == 0, "cleared");
      mon::op("clear");
      kept.clear(); keptPose.clear(); keptVel.clear();
      if (r.chance(0.5)) t = gen::startTime(r);
      mon::count("hermite_clears");
    }
    const int batch = r.chance(0.8) ? 1 : r.range(0, 5);
    std::vector<double> ts;
    std::vector<Pose> ps;
    for (int j = 0; j < batch; ++j, ++i) {
      ts.push_back(t);
      ps.push_back(pose(r, 5));
      t += r.chance(0.5) ? 0.25 * r.range(1, 4) : r.logreal(1e-3, 2);
      const double now = ts.back();
      const Pose& p = ps.back();
      auto add = [&](const Vel& v) { kept.push_back(now); keptPose.push_back(p); keptVel.push_back(v); };
      auto dropTemporary = [&] { if (newestTemporary) { kept.pop_back(); keptPose.pop_back(); keptVel.pop_back(); } };
      if (kept.empty()) { add({V3::Zero(), V3::Zero(), false}); lastPermanent = now; since = 0; newestTemporary = false; }
      else if (since >= group && lastPermanent + period < now) {
        dropTemporary();
        // the last permanent coefficient gets its final velocity: the slope between its neighbours
        const size_t l = kept.size() - 1;
        const Vel back = slopeOf(kept[l], now, keptPose[l], p);
        keptVel[l] = l == 0 ? back : slopeOf(kept[l - 1], now, keptPose[l - 1], p);
        add(back);
        lastPermanent = now; since = 0; newestTemporary = false;
        mon::count("completed_groups");
      } else {
        dropTemporary();
        const size_t l = kept.size() - 1;
        add(newestTemporary ? slopeOf(kept[l], now, keptPose[l], p) : keptVel[l]);
        newestTemporary = true; ++since;
        mon::count("temporary");
      }
      h = mon::hashD(h, ts.back());
    }
    policy.extend<SE3C, SE3C::ValueType>(ts, ps, &c, nullptr);
    mon::op("extend " + times(ts));
    if (batch == 0) { if (i == 0 && r.chance(0.5)) ++i; if (kept.empty()) continue; ++i; }
    std::vector<double> got;
    c.getCurveTimes(&got);
    MON_CHECK(got == kept, "group " << group << " period " << period << ": coefficients at " << times(got) << " expected " << times(kept));
    MON_CHECK(c.size() == int(kept.size()), "size " << c.size());
    MON_CHECK(policy.getMeasurementsSinceLastExtend() == since, "policy counts " << policy.getMeasurementsSinceLastExtend() << " measurements in the group instead of " << since);
    MON_CHECK(policy.getLastExtendTime() == lastPermanent, "policy reports the last permanent coefficient at " << policy.getLastExtendTime() << " instead of " << lastPermanent);
    MON_CHECK(c.getMaxTime() == kept.back(), "end at " << c.getMaxTime() << " newest measurement at " << kept.back());
    for (size_t k = 0; k < kept.size(); ++k) {
      Pose x;
      MON_CHECK(c.evaluate(x, kept[k]), "evaluate at " << kept[k]);
      MON_NEAR("kept_position", (x.getPosition() - keptPose[k].getPosition()).norm(), 0, 1e-10 * (1 + keptPose[k].getPosition().norm()), "coefficient " << k << " of " << kept.size());
      TwistG w;
      MON_CHECK(c.evaluateDerivative(w, kept[k], 1), "derivative at " << kept[k]);
      const Vel& v = keptVel[k];
      const double gap = std::min(k > 0 ? kept[k] - kept[k - 1] : 1e9, k + 1 < kept.size() ? kept[k + 1] - kept[k] : 1e9);  // velocities come out of differences of positions
      const double ulp = 1e-15 * (1 + std::fabs(kept[k])) / gap;
      if (kept.size() > 1) MON_NEAR("kept_velocity", (w.getTranslationalVelocity().vector() - v.lin).norm(), 0, (1e-9 + 100 * ulp) * (1 + v.lin.norm() + 30 / gap), "coefficient " << k << " of " << kept.size() << " has " << w.getTranslationalVelocity().vector().transpose() << " expected " << show(v.lin));
      const bool fast = v.ang.norm() * gap > 1.0;  // rotates too fast for a cubic to be unambiguous
      if (kept.size() > 1 && !v.ambiguous && !fast) { MON_NEAR("kept_angular_velocity", (w.getRotationalVelocity().vector() - v.ang).norm(), 0, (1e-8 + 1e3 * ulp) * (1 + v.ang.norm() + 1 / gap), "coefficient " << k << " of " << kept.size() << " has " << w.getRotationalVelocity().vector().transpose() << " expected " << show(v.ang)); mon::count("angular_velocities"); }
      MON_NEAR("kept_rotation", quatDist(x.getRotation(), keptPose[k].getRotation()), 0, 1e-8, "coefficient " << k << " of " << kept.size());
    }
    mon::count("hermite_extends");
  }
  if (n > 2) mon::nontrivial(h);
  mon::sample("Hermite group " + std::to_string(group) + " period " + mon::num(period) + " keeps " + times(kept));
}

static void slerp(Rng& r) {
  Slerp c;
  const int ratio = r.chance(0.1) ? r.range(7, 60) : r.range(1, 6);
  if (ratio != 1 || r.chance(0.5)) c.setSamplingRatio(ratio);
  std::vector<double> kept;
  double t = gen::startTime(r);
  auto next = [&] { const double s = t; t += r.chance(0.5) ? 0.25 * r.range(1, 4) : r.logreal(1e-3, 2); return s; };
  if (r.chance(0.3)) {  // start from several measurements at once, or from a fit
    std::vector<double> ts;
    std::vector<Pose> ps;
    for (int i = r.range(2, 6); i > 0; --i) { ts.push_back(next()); ps.push_back(pose(r, 5)); }
    KeyWatch kw;
    std::vector<curves::Key>* keys = kw.ask(r);
    if (r.chance(0.5)) c.extend(ts, ps, keys); else c.fitCurve(ts, ps, keys);
    kw.check(keys, ts.size());
    kept = ts;
    mon::count("slerp_initial_batches");
  }
  int inGroup = 0;
  const int n = r.chance(0.05) ? r.range(100, 300) : r.range(2, 30);
  uint64_t h = mon::hashI(6, uint64_t(ratio));
  for (int i = 0; i < n; ++i) {
    if (r.chance(0.03)) {  // start over: cleared, or with a new fit
      std::vector<double> ts;
      std::vector<Pose> ps;
      if (r.chance(0.5)) { c.clear(); MON_CHECK(c.isEmpty() && c.size() == 0, "cleared"); mon::op("clear"); if (r.chance(0.5)) t = gen::startTime(r); mon::count("slerp_clears"); }
      else {
        for (int j = r.range(1, 6); j > 0; --j) { ts.push_back(next()); ps.push_back(pose(r, 5)); }
        c.fitCurve(ts, ps);
        mon::op("fit " + times(ts));
        mon::count("slerp_refits");
        std::vector<double> got;
        c.getCurveTimes(&got);
        MON_CHECK(got == ts && c.size() == int(ts.size()), "fitted to " << times(ts) << " has " << times(got));
      }
      kept = ts;
      inGroup = 0;
    }
    if (inGroup == 0 && !kept.empty() && r.chance(0.05)) {  // several measurements at once, or coefficients set here and there
      std::vector<double> ts;
      std::vector<Pose> ps;
      if (r.chance(0.5)) {
        for (int j = r.range(0, 4); j > 0; --j) ts.push_back(next());
        if (ts.size() == 1) ts.push_back(next());
        for (size_t j = 0; j < ts.size(); ++j) ps.push_back(pose(r, 5));
        c.extend(ts, ps);
        mon::op("extend " + times(ts));
        mon::count("slerp_batches");
      } else {
        for (int j = r.range(0, 4); j > 0; --j) { ts.push_back(r.chance(0.4) ? kept[r.below(uint32_t(kept.size()))] : r.chance(0.5) ? next() : kept[0] - r.real(0, 3)); ps.push_back(pose(r, 5)); }
        c.setCurve(ts, ps);
        mon::op("set " + times(ts));
        mon::count("slerp_sets");
      }
      kept.insert(kept.end(), ts.begin(), ts.end());
      std::sort(kept.begin(), kept.end());
      kept.erase(std::unique(kept.begin(), kept.end()), kept.end());
      std::vector<double> got;
      c.getCurveTimes(&got);
      MON_CHECK(got == kept && c.size() == int(kept.size()), "ratio " << ratio << ": coefficients at " << times(got) << " expected " << times(kept));
    }
    const double s = next();
    c.extend(std::vector<double>(1, s), std::vector<Pose>(1, pose(r, 5)));
    mon::op("extend " + mon::num(s));
    if (kept.size() < 2 || ratio == 1) kept.push_back(s);
    else {
      if (inGroup == 0) kept.push_back(s); else { kept.back() = s; mon::count("slerp_moves"); }
      inGroup = (inGroup + 1) % ratio;
    }
    std::vector<double> got;
    c.getCurveTimes(&got);
    MON_CHECK(got == kept, "ratio " << ratio << ": coefficients at " << times(got) << " expected " << times(kept));
    MON_CHECK(c.size() == int(kept.size()) && c.getMaxTime() == s && c.getMinTime() == kept[0] && !c.isEmpty(), "size and range");
    h = mon::hashD(h, s);
    mon::count("slerp_extends");
  }
  if (ratio == 1) mon::count("slerp_ratio_one");
  mon::nontrivial(h);
}
static void oneCase(Rng& r, uint64_t id) { if (id % 2) slerp(r); else hermite(r); }
int main(int argc, char** argv) { quietCerr(); return mon::run(argc, argv, "C21", oneCase); }
