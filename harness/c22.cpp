// C22: curves from trajectory messages.
#include "hermite.hpp"
#include "curves_ros/RosJointTrajectoryInterface.hpp"
#include "curves_ros/RosMultiDOFJointTrajectoryInterface.hpp"
#include "curves_ros/RosMultiDOFJointTrajectoryTranslationInterface.hpp"
using namespace her;

static std::vector<std::string> names(Rng& r, int n) {
  static const char* pool[] = {"hip", "hip_left", "hip_left_", "Hip", "", " ", "knee", "kne", "knee1", "knee10", "base", "base_link", "arm/1", "arm/10"};
  std::vector<std::string> v;
  while (int(v.size()) < n) {
    const std::string s = r.chance(0.8) ? pool[r.below(14)] : (r.chance(0.1) ? std::string(size_t(r.range(20, 200)), 'n') : std::string("j")) + std::to_string(r.range(0, 999));
    if (std::find(v.begin(), v.end(), s) == v.end()) v.push_back(s);
  }
  return v;
}
static std::vector<ros::Duration> stamps(Rng& r, int n) {
  std::vector<ros::Duration> v;
  long long ns = r.chance(0.6) ? 0 : (long long)(r.unit() * (r.chance(0.2) ? 5e12 : 20e9));
  if (r.chance(0.1)) { ns = -(long long)(r.unit() * 20e9); mon::count("negative_stamps"); }
  for (int i = 0; i < n; ++i) {
    long long sec = ns / 1000000000, frac = ns % 1000000000;
    if (frac < 0) { --sec; frac += 1000000000; }
    v.push_back(ros::Duration(int32_t(sec), int32_t(frac)));
    ns += 100000000ll + (long long)(r.unit() * (r.chance(0.5) ? 0.4e9 : 3e9));
  }
  return v;
}
static std::string absentName(Rng& r, const std::vector<std::string>& have) {
  while (true) { const std::string s = names(r, 1)[0] + (r.chance(0.3) ? "x" : ""); if (std::find(have.begin(), have.end(), s) == have.end()) return s; }
}

struct Joint {
  typedef curves::RosJointTrajectoryInterface C;
  typedef trajectory_msgs::JointTrajectory Msg;
  typedef curves::PolynomialSplineQuinticScalarCurve Ref;
  static const char* name() { return "joint"; }
  static void fill(Rng& r, Msg& m, size_t joints, const std::vector<ros::Duration>& st) {
    for (auto& s : st) {
      trajectory_msgs::JointTrajectoryPoint p;
      p.time_from_start = s;
      for (size_t j = 0; j < joints; ++j) p.positions.push_back(r.value(5) + 100.0 * double(j));
      if (r.chance(0.3)) for (size_t j = 0; j < joints; ++j) p.velocities.push_back(r.value(5));
      m.points.push_back(p);
    }
  }
  static void truncate(trajectory_msgs::JointTrajectoryPoint& p, size_t n) { p.positions.resize(n); p.positions.shrink_to_fit(); }
  static void fit(Ref& ref, const Msg& m, size_t j, const std::vector<double>& t) {
    std::vector<double> v;
    for (auto& p : m.points) v.push_back(p.positions[j]);
    ref.fitCurve(t, v);
  }
  template <class X> static std::vector<double> observe(const X& c, const std::vector<double>& q) {
    std::vector<double> o{c.getMinTime(), c.getMaxTime()};
    for (double t : q) { double v = 0; o.push_back(c.evaluate(v, t)); o.push_back(v); double d = 0; o.push_back(c.evaluateDerivative(d, t, 1)); o.push_back(d); }
    return o;
  }
};
struct MultiBase {
  static void truncate(trajectory_msgs::MultiDOFJointTrajectoryPoint& p, size_t n) { p.transforms.resize(n); p.transforms.shrink_to_fit(); }
  typedef trajectory_msgs::MultiDOFJointTrajectory Msg;
  static void fill(Rng& r, Msg& m, size_t joints, const std::vector<ros::Duration>& st) {
    for (auto& s : st) {
      trajectory_msgs::MultiDOFJointTrajectoryPoint p;
      p.time_from_start = s;
      for (size_t j = 0; j < joints; ++j) {
        const Pose x = pose(r, 5);
        geometry_msgs::Transform f;
        f.translation.x = x.getPosition().x() + 100.0 * double(j); f.translation.y = x.getPosition().y(); f.translation.z = x.getPosition().z();
        f.rotation.w = x.getRotation().w(); f.rotation.x = x.getRotation().x(); f.rotation.y = x.getRotation().y(); f.rotation.z = x.getRotation().z();
        p.transforms.push_back(f);
      }
      m.points.push_back(p);
    }
  }
};
struct Multi : MultiBase {
  typedef curves::RosMultiDOFJointTrajectoryInterface C;
  typedef curves::CubicHermiteSE3Curve Ref;
  static const char* name() { return "multi_dof"; }
  static void fit(Ref& ref, const Msg& m, size_t j, const std::vector<double>& t) {
    std::vector<Pose> v;
    for (auto& p : m.points) {
      const auto& f = p.transforms[j];
      v.push_back(Pose(kindr::Position3D(f.translation.x, f.translation.y, f.translation.z), Quat(f.rotation.w, f.rotation.x, f.rotation.y, f.rotation.z)));
    }
    ref.fitCurve(t, v);
  }
  template <class X> static std::vector<double> observe(const X& c, const std::vector<double>& q) {
    std::vector<double> o{c.isEmpty() ? 0 : c.getMinTime(), c.isEmpty() ? 0 : c.getMaxTime(), double(c.size())};
    for (double t : q) {
      Pose p; TwistG w;
      o.push_back(c.evaluate(p, t)); o.push_back(c.evaluateDerivative(w, t, 1));
      for (int k = 0; k < 3; ++k) { o.push_back(p.getPosition()(k)); o.push_back(w.getTranslationalVelocity()(k)); o.push_back(w.getRotationalVelocity()(k)); }
      for (int k = 0; k < 4; ++k) o.push_back(p.getRotation().vector()[k]);
    }
    return o;
  }
};
struct Translation : MultiBase {
  typedef curves::RosMultiDOFJointTrajectoryTranslationInterface C;
  typedef curves::PolynomialSplineQuinticVector3Curve Ref;
  static const char* name() { return "translation"; }
  static void fit(Ref& ref, const Msg& m, size_t j, const std::vector<double>& t) {
    std::vector<Ref::ValueType> v;
    for (auto& p : m.points) v.push_back(Ref::ValueType(p.transforms[j].translation.x, p.transforms[j].translation.y, p.transforms[j].translation.z));
    ref.fitCurve(t, v);
  }
  template <class X> static std::vector<double> observe(const X& c, const std::vector<double>& q) {
    std::vector<double> o{c.getMinTime(), c.getMaxTime()};
    for (double t : q) {
      typename X::ValueType v = X::ValueType::Zero(); typename X::DerivativeType d = X::DerivativeType::Zero();
      o.push_back(c.evaluate(v, t)); o.push_back(c.evaluateDerivative(d, t, 1));
      for (int k = 0; k < 3; ++k) { o.push_back(v[k]); o.push_back(d[k]); }
    }
    return o;
  }
};

template <class K> static void play(Rng& r) {
  typename K::C c;
  bool fitted = false;
  uint64_t h = mon::hashBytes(K::name(), 3);
  const int rounds = r.range(1, 5);
  for (int k = 0; k < rounds; ++k) {
    typename K::Msg m;
    const size_t joints = size_t(r.chance(0.05) ? r.range(20, 90) : r.range(r.chance(0.15) ? 0 : 1, 6));
    if (joints >= 20) mon::count("many_joints");
    m.joint_names = names(r, int(joints));
    const bool absent = joints == 0 || r.chance(0.3);
    const std::vector<ros::Duration> st = stamps(r, r.chance(0.02) ? r.range(20, 40) : r.chance(0.06) ? r.range(0, 1) : r.range(2, 10));
    K::fill(r, m, joints, st);
    std::vector<double> t, q;
    for (auto& s : st) t.push_back(double(s.sec) + 1e-9 * double(s.nsec));
    for (int i = 0; i < 10; ++i) q.push_back(t.empty() ? r.real(-5, 30) : r.real(t.front() - 0.5, t.back() + 0.5));
    for (double s : t) q.push_back(s);
    if (absent) {
      const std::string nm = absentName(r, m.joint_names);
      if (joints == 0 && r.chance(0.5)) m.points.clear();
      if (!fitted) {
        MON_CHECK(!c.fromMessage(m, nm), K::name() << ": message without the joint accepted");
        if (joints == 0) mon::count("nameless_messages");
        mon::count("absent_joint");
        continue;
      }
      const std::vector<double> before = K::observe(c, q);
      const bool ok = c.fromMessage(m, nm);
      mon::op(std::string(K::name()) + " absent joint '" + nm + "' of " + std::to_string(joints));
      MON_CHECK(!ok, K::name() << ": message without the joint '" << nm << "' accepted");
      const std::vector<double> after = K::observe(c, q);
      MON_CHECK(before.size() == after.size() && !memcmp(before.data(), after.data(), before.size() * sizeof(double)), K::name() << ": curve changed by a message without the joint");
      if (joints == 0) mon::count("nameless_messages");
      mon::count("absent_joint");
      mon::count("absent_joint_on_curve");
    } else if (!m.points.empty() && r.chance(0.12)) {  // the joint is named, but a point has no value for it (velocity-only or truncated points)
      const size_t j = r.below(uint32_t(joints)), at = r.below(uint32_t(m.points.size()));
      const size_t left = r.chance(0.5) ? j : r.below(uint32_t(j + 1));
      if (r.chance(0.3)) for (auto& p : m.points) K::truncate(p, left); else K::truncate(m.points[at], left);
      const std::vector<double> before = K::observe(c, q);
      const bool ok = c.fromMessage(m, m.joint_names[j]);
      mon::op(std::string(K::name()) + " point without joint " + std::to_string(j) + " of " + std::to_string(joints));
      MON_CHECK(!ok, K::name() << ": message with a point that lacks joint " << j << " of " << joints << " accepted");
      const std::vector<double> after = K::observe(c, q);
      MON_CHECK(before.size() == after.size() && !memcmp(before.data(), after.data(), before.size() * sizeof(double)), K::name() << ": curve changed by a message with a point that lacks the joint");
      mon::count("incomplete_points");
    } else {
      const size_t j = r.below(uint32_t(joints));
      mon::op(std::string(K::name()) + " joint " + std::to_string(j) + " of " + std::to_string(joints) + " at " + mon::list(t));
      const bool ok = c.fromMessage(m, m.joint_names[j]);
      MON_CHECK(ok || m.points.empty(), K::name() << ": message with the joint refused");
      if (m.points.size() < 2) mon::count(m.points.empty() ? "messages_without_points" : "single_point_messages");
      typename K::Ref ref;
      K::fit(ref, m, j, t);
      const std::vector<double> got = K::observe(c, q), want = K::observe(ref, q);
      MON_CHECK(got.size() == want.size(), "size");
      for (size_t i = 0; i < got.size(); ++i)
        MON_NEAR("curve", got[i], want[i], 1e-8 * (1 + std::fabs(want[i])), K::name() << " joint " << j << " of " << joints << ", observation " << i << ", times " << mon::list(t));
      if (fitted) mon::count("replaced");
      fitted = true;
      mon::count(K::name());
      if (j > 0) mon::count("later_joint");
      for (double s : t) h = mon::hashD(h, s);
      h = mon::hashI(h, j);
      mon::nontrivial(h);
      mon::sample(std::string(K::name()) + " joint " + std::to_string(j) + " of " + std::to_string(joints) + " at " + mon::list(t));
    }
  }
}
static void oneCase(Rng& r, uint64_t id) { switch (id % 3) { case 0: play<Joint>(r); break; case 1: play<Multi>(r); break; default: play<Translation>(r); } }
int main(int argc, char** argv) { quietCerr(); return mon::run(argc, argv, "C22", oneCase); }
