// Shared by the Hermite harnesses: pose generation and reference geometry.
#pragma once
#include <iostream>
#include <kindr/Core>
#include "curves/CubicHermiteE3Curve.hpp"
#include "curves/CubicHermiteSE3Curve.hpp"
#include "gen.hpp"
#include "mon.hpp"

namespace her {
using mon::Rng;
typedef Eigen::Vector3d V3;
typedef kindr::HomTransformQuatD Pose;
typedef kindr::TwistGlobalD TwistG;
typedef kindr::RotationQuaternionD Quat;

inline void quietCerr() { std::cerr.setstate(std::ios::failbit); std::cout.setstate(std::ios::failbit); }

inline V3 vec(Rng& r, double scale) { return V3(r.value(scale), r.value(scale), r.value(scale)); }
inline Quat unitQuat(double w, double x, double y, double z) {
  const double n = std::sqrt(w * w + x * x + y * y + z * z);
  return Quat(w / n, x / n, y / n, z / n);
}
inline Quat rotation(Rng& r) {
  switch (r.below(8)) {
    case 0: return Quat();
    case 1: { V3 a = V3::Zero(); a[r.range(0, 2)] = 1; return Quat(0.0, a); }  // half turn
    case 2: return Quat(-1, 0, 0, 0);
    case 3: { const double s = std::sqrt(0.5); V3 a = V3::Zero(); a[r.range(0, 2)] = r.chance(0.5) ? s : -s; return Quat(r.chance(0.5) ? s : -s, a); }
    case 4: return unitQuat(1, r.real(-1e-3, 1e-3), r.real(-1e-3, 1e-3), r.real(-1e-3, 1e-3));
    default:
      while (true) {
        double w = r.real(-1, 1), x = r.real(-1, 1), y = r.real(-1, 1), z = r.real(-1, 1);
        if (w * w + x * x + y * y + z * z > 0.01) return unitQuat(w, x, y, z);
      }
  }
}
inline Pose pose(Rng& r, double scale) { return Pose(kindr::Position3D(vec(r, scale)), rotation(r)); }
// A sequence of poses; consecutive ones may repeat, be close or far apart.
inline std::vector<Pose> poses(Rng& r, int n) {
  std::vector<Pose> v;
  const int pattern = r.range(0, 4);
  for (int i = 0; i < n; ++i) {
    if (i == 0 || pattern == 0) { v.push_back(pose(r, 5)); continue; }
    if (pattern == 1 && r.chance(0.3)) { v.push_back(v.back()); continue; }
    V3 w(r.real(-1, 1), r.real(-1, 1), r.real(-1, 1));
    const double a = pattern == 2 ? 0.3 : pattern == 4 ? r.logreal(1e-8, 1.0) : 2.0;  // 4: barely turning
    Quat q = Quat().exponentialMap(a * w) * v.back().getRotation();
    q = unitQuat(q.w(), q.x(), q.y(), q.z());
    if (r.chance(0.2)) q = Quat(-q.w(), -q.x(), -q.y(), -q.z());
    v.push_back(Pose(kindr::Position3D(V3(v.back().getPosition().vector() + vec(r, 1))), q));
  }
  return v;
}
inline double quatDist(const Quat& a, const Quat& b) { return std::min((a.vector() - b.vector()).norm(), (a.vector() + b.vector()).norm()); }
// Shortest rotation vector from a to b in the global frame (independent of the library under test).
inline V3 slope(const Quat& a, const Quat& b) {
  Quat d = b * a.inverted();
  Eigen::Vector4d v = d.vector();
  if (v[0] < 0) v = -v;
  const double s = v.tail<3>().norm();
  return s < 1e-9 ? V3(2 * v.tail<3>()) : V3(v.tail<3>() * (2 * std::atan2(s, v[0]) / s));
}
const double kAmbiguous = M_PI - 0.02;  // beyond, the shortest rotation is not well defined numerically

inline std::string show(const V3& v) { return "(" + mon::num(v[0]) + "," + mon::num(v[1]) + "," + mon::num(v[2]) + ")"; }
inline uint64_t hashV(uint64_t h, const V3& v) { return mon::hashD(mon::hashD(mon::hashD(h, v[0]), v[1]), v[2]); }
inline uint64_t hashP(uint64_t h, const Pose& p) {
  h = hashV(h, p.getPosition().vector());
  for (int i = 0; i < 4; ++i) h = mon::hashD(h, p.getRotation().vector()[i]);
  return h;
}

// The cubic through (t0,p0,v0) and (t1,p1,v1) and its derivatives, in extended precision.
typedef long double L;
inline void cubic(L t0, L t1, const V3& p0, const V3& v0, const V3& p1, const V3& v1, L t, L out[3][3]) {
  const L d = t1 - t0, u = (t - t0) / d;
  for (int k = 0; k < 3; ++k) {
    const L a = p0[k], b = L(v0[k]) * d, dp = L(p1[k]) - p0[k], e = L(v1[k]) * d;
    const L c2 = 3 * dp - 2 * b - e, c3 = b + e - 2 * dp;
    out[0][k] = a + u * (b + u * (c2 + u * c3));
    out[1][k] = (b + u * (2 * c2 + 3 * u * c3)) / d;
    out[2][k] = (2 * c2 + 6 * u * c3) / (d * d);
  }
}
// Quaternions (w first) in extended precision.
struct LQ { L w, x, y, z; };
inline LQ lq(const Quat& q) { return LQ{q.w(), q.x(), q.y(), q.z()}; }
inline LQ operator*(const LQ& a, const LQ& b) {
  return LQ{a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z, a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y,
            a.w * b.y - a.x * b.z + a.y * b.w + a.z * b.x, a.w * b.z + a.x * b.y - a.y * b.x + a.z * b.w};
}
inline LQ conj(const LQ& q) { return LQ{q.w, -q.x, -q.y, -q.z}; }
struct LV { L x, y, z; L norm() const { return std::sqrt(x * x + y * y + z * z); } };
inline LQ expq(const LV& v, L f) {
  const L n = v.norm() * std::fabs(f), k = n < 1e-9L ? f / 2 : std::sin(n / 2) / n * f;
  return LQ{std::cos(n / 2), v.x * k, v.y * k, v.z * k};
}
inline LV logq(LQ q) {
  if (q.w < 0) q = LQ{-q.w, -q.x, -q.y, -q.z};
  const L s = std::sqrt(q.x * q.x + q.y * q.y + q.z * q.z), k = s < 1e-12L ? 2 : 2 * std::atan2(s, q.w) / s;
  return LV{k * q.x, k * q.y, k * q.z};
}
// The rotation of Kim, Kim and Shin between two rotations with given (global) angular velocities;
// false if the rotation in the middle is near a half turn, where its direction is a matter of rounding.
struct KimKimShin {
  LQ a; LV w[3];
  KimKimShin(const Quat& qa, const Quat& qb, const V3& va, const V3& vb, L dt) : a(lq(qa)) {
    const LQ b = lq(qb);
    auto local = [&](const LQ& q, const V3& v) { const LQ g = conj(q) * (LQ{0, v[0], v[1], v[2]} * q); return LV{g.x * dt / 3, g.y * dt / 3, g.z * dt / 3}; };
    w[0] = local(a, va); w[2] = local(b, vb);
    w[1] = logq(expq(w[0], -1) * (conj(a) * (b * expq(w[2], -1))));
  }
  L speed() const { return w[0].norm() + w[1].norm() + w[2].norm(); }
  LQ at(L u) const { return a * (expq(w[0], 1 - (1 - u) * (1 - u) * (1 - u)) * (expq(w[1], u * u * (3 - 2 * u)) * expq(w[2], u * u * u))); }
};
inline double dist(const LQ& a, const LQ& b) {
  const L p = std::max(std::max(std::fabs(a.w - b.w), std::fabs(a.x - b.x)), std::max(std::fabs(a.y - b.y), std::fabs(a.z - b.z)));
  const L m = std::max(std::max(std::fabs(a.w + b.w), std::fabs(a.x + b.x)), std::max(std::fabs(a.y + b.y), std::fabs(a.z + b.z)));
  return double(std::min(p, m));
}
// A fit that is asked for keys appends one per coefficient, each larger than any key seen before.
struct KeyWatch {
  std::vector<curves::Key> keys;
  size_t before = 0;
  std::vector<curves::Key>* ask(Rng& r) {
    if (r.chance(0.5)) return nullptr;
    keys.assign(r.below(3), curves::Key(0));
    before = keys.size();
    return &keys;
  }
  void check(const std::vector<curves::Key>* asked, size_t n) {
    static curves::Key last = 0;
    if (!asked) return;
    MON_CHECK(keys.size() == before + n, "a fit of " << n << " knots appended " << keys.size() - std::min(before, keys.size()) << " keys");
    for (size_t i = 0; i < before; ++i) MON_CHECK(keys[i] == 0, "a fit changed the keys already in the list");
    for (size_t i = before; i < keys.size(); ++i) { MON_CHECK(keys[i] > last, "key " << keys[i] << " of coefficient " << i - before << " after key " << last); last = keys[i]; }
    mon::count("fit_keys", n);
  }
};
inline size_t segmentOf(const std::vector<double>& t, double q) {  // q within range
  size_t i = size_t(std::upper_bound(t.begin(), t.end(), q) - t.begin());
  if (i == 0) return 0;
  return std::min(i - 1, t.size() - 2);
}
}  // namespace her
