// C20: rigid-body Hermite curve: knots, unit rotations, twists = time derivatives, left equivariance.
#include "hermite.hpp"
using namespace her;
typedef curves::CubicHermiteSE3Curve SE3C;

static void fails(SE3C& c, double t, const char* what) {
  Pose p; TwistG w; kindr::Acceleration3D a;
  MON_CHECK(!c.evaluate(p, t), what << ": evaluate at " << t);
  MON_CHECK(!c.evaluateDerivative(w, t, 1), what << ": derivative at " << t);
  MON_CHECK(!c.evaluateLinearAcceleration(a, t), what << ": acceleration at " << t);
  mon::count("refusals");
}
static Pose at(const SE3C& c, double t) {
  Pose p;
  MON_CHECK(c.evaluate(p, t), "evaluate at " << t << " in [" << c.getMinTime() << "," << c.getMaxTime() << "]");
  MON_NEAR("unit", p.getRotation().norm(), 1.0, 1e-11, "rotation at " << t << " is " << p.getRotation());
  return p;
}
static TwistG dAt(const SE3C& c, double t) {
  TwistG w;
  MON_CHECK(c.evaluateDerivative(w, t, 1), "derivative at " << t << " in [" << c.getMinTime() << "," << c.getMaxTime() << "]");
  return w;
}
static const V3& lin(const TwistG& w) { return w.getTranslationalVelocity().vector(); }
static const V3& ang(const TwistG& w) { return w.getRotationalVelocity().vector(); }

static void oneCase(Rng& r, uint64_t) {
  SE3C c;
  if (r.chance(0.3)) { MON_CHECK(c.isEmpty() && c.size() == 0, "fresh curve"); fails(c, 0, "fresh curve"); fails(c, r.value(3), "fresh curve"); mon::count("empty_curves"); }
  const int rounds = r.range(1, 2);
  for (int k = 0; k < rounds; ++k) {
    const size_t n = size_t(r.chance(0.08) ? 1 : r.chance(0.2) ? 2 : r.chance(0.02) ? r.range(30, 200) : r.range(3, 12));
    if (n >= 30) mon::count("large_curves");
    const std::vector<double> t = gen::knotsAnySpacing(r, int(n), 0.1, 4, gen::startTime(r), true);
    const std::vector<Pose> p = poses(r, int(n));
    TwistG d0, d1;
    KeyWatch kw;
    std::vector<curves::Key>* keys = kw.ask(r);
    if (r.chance(0.35)) { c.fitCurve(t, p, keys); mon::count("plain_fits"); }
    else { d0 = TwistG(vec(r, 2), vec(r, 1)); d1 = TwistG(vec(r, 2), vec(r, 1)); c.fitCurveWithDerivatives(t, p, d0, d1, keys); mon::count("fits_with_derivatives"); }
    kw.check(keys, n);
    if (k) mon::count("refits");
    mon::op("fit " + mon::list(t));
    MON_CHECK(c.size() == int(n) && !c.isEmpty() && c.getMinTime() == t.front() && c.getMaxTime() == t.back(), "size and range");
    for (double d : {1e-9 * (1 + std::fabs(t.front())), 0.1, 1e6}) { fails(c, t.front() - d, "before the start"); fails(c, t.back() + 1e-9 * std::fabs(t.back()) + d, "after the end"); }
    fails(c, std::nextafter(t.front(), -1e300), "just before the start");
    fails(c, std::nextafter(t.back(), 1e300), "just after the end");
    // expected twists at the knots
    std::vector<TwistG> w(n);
    bool safe = true;
    for (size_t i = 0; i < n; ++i) {
      if (i == 0) w[i] = d0; else if (i + 1 == n) w[i] = d1;
      else {
        const double dt = t[i + 1] - t[i - 1];
        const V3 rv = slope(p[i - 1].getRotation(), p[i + 1].getRotation());
        if (rv.norm() >= kAmbiguous) safe = false;
        w[i] = TwistG(V3((p[i + 1].getPosition().vector() - p[i - 1].getPosition().vector()) / dt), V3(rv / dt));
      }
    }
    for (size_t i = 0; i < n; ++i) {
      const Pose x = at(c, t[i]);
      MON_NEAR("knot_position", (x.getPosition() - p[i].getPosition()).norm(), 0, 1e-11 * (1 + p[i].getPosition().norm()), "knot " << i << " of " << n);
      MON_NEAR("knot_rotation", quatDist(x.getRotation(), p[i].getRotation()), 0, 1e-9, "knot " << i << " of " << n << " got " << x << " expected " << p[i]);
      if (n == 1) break;
      for (int side = 0; side < 2; ++side) {  // from the right and just before the knot (or just after the start)
        const double s = side == 0 ? t[i] : i ? std::nextafter(t[i], -1e300) : std::nextafter(t[i], 1e300);
        const TwistG g = dAt(c, s);
        double near = 1e-9 * (1 + std::fabs(s)), step = 0;  // step: what one rounding of the time is worth
        for (size_t j : {i ? i - 1 : i, i}) if (j + 1 < n) {
          const double dj = t[j + 1] - t[j];
          step = std::max(step, 4e-15 * (std::fabs(s) + dj) * ((p[j].getPosition().norm() + p[j + 1].getPosition().norm()) / dj + lin(w[j]).norm() + lin(w[j + 1]).norm() + 1) / dj);
        }
        MON_NEAR("knot_velocity", (lin(g) - lin(w[i])).norm(), 0, near * 10 * (1 + lin(w[i]).norm() + p[i].getPosition().norm() * 100) + step, "knot " << i << " of " << n << " side " << side);
        const V3 rv = (i && i + 1 < n) ? slope(p[i - 1].getRotation(), p[i + 1].getRotation()) : V3::Zero();
        if (rv.norm() < kAmbiguous)
          MON_NEAR("knot_angular_velocity", (ang(g) - ang(w[i])).norm(), 0, 1e-6 * (1 + ang(w[i]).norm()) + near * 1e3,
                   "knot " << i << " of " << n << " side " << side << " got " << show(ang(g)) << " expected " << show(ang(w[i])));
        mon::count("knot_twists");
      }
    }
    if (n == 1) {
      const TwistG g = dAt(c, t[0]);
      MON_CHECK(lin(g) == lin(d0) && ang(g) == ang(d0), "twist of a single knot");
      mon::count("single_knot");
      const Pose G = pose(r, 5), moved = G * p[0];
      SE3C m = c;
      m.transformCurve(G);
      const Pose x = at(m, t[0]);
      const TwistG z = dAt(m, t[0]);
      MON_NEAR("single_knot_moved", (x.getPosition() - moved.getPosition()).norm() + quatDist(x.getRotation(), moved.getRotation()), 0, 1e-11 * (1 + moved.getPosition().norm() + p[0].getPosition().norm()), "a single knot moved to " << x << " expected " << moved);
      MON_NEAR("single_knot_turned", (lin(z) - G.getRotation().rotate(lin(d0))).norm() + (ang(z) - G.getRotation().rotate(ang(d0))).norm(), 0, 1e-11 * (1 + lin(d0).norm() + ang(d0).norm()), "twist of a moved single knot");
      continue;
    }
    // derivatives by finite differences inside the segments
    for (size_t i = 0; i + 1 < n; ++i) {
      const double dt = t[i + 1] - t[i];
      for (int q = 0; q < 2; ++q) {
        const double h = 3e-4 * dt / (1 + 0.1 * dt * (ang(w[i]).norm() + ang(w[i + 1]).norm())), s = t[i] + dt * r.real(0.01, 0.99);
        Pose e[5];
        V3 vel[5];
        for (int j = 0; j < 5; ++j) { e[j] = at(c, s + (j - 2) * h); vel[j] = lin(dAt(c, s + (j - 2) * h)); }
        const TwistG g = dAt(c, s);
        const double wgt[5] = {1 / 12., -8 / 12., 0, 8 / 12., -1 / 12.};
        V3 num = V3::Zero(), acc = V3::Zero();
        Eigen::Vector4d qd = Eigen::Vector4d::Zero();
        const Eigen::Vector4d mid = e[2].getRotation().vector();
        for (int j = 0; j < 5; ++j) {
          num += wgt[j] * e[j].getPosition().vector();
          acc += wgt[j] * vel[j];
          Eigen::Vector4d v = e[j].getRotation().vector();
          if (v.dot(mid) < 0) v = -v;
          qd += wgt[j] * v;
        }
        num /= h; acc /= h; qd /= h;
        const V3 omega = 2.0 * (Quat(qd) * e[2].getRotation().inverted()).imaginary();
        const double ps = (p[i].getPosition().norm() + p[i + 1].getPosition().norm()) / dt + lin(w[i]).norm() + lin(w[i + 1]).norm() + 1;
        const double rs = (10.0 + 10 * dt * (ang(w[i]).norm() + ang(w[i + 1]).norm())) / dt;
        const double tq = 1 + std::fabs(s) / dt * 0.01;
        MON_NEAR("velocity", (num - lin(g)).norm(), 0, 1e-7 * ps * tq, "t=" << s << " segment " << i << " reported " << show(lin(g)) << " observed " << show(num));
        MON_NEAR("angular_velocity", (omega - ang(g)).norm(), 0, 1e-6 * rs * tq, "t=" << s << " segment " << i << " reported " << show(ang(g)) << " observed " << show(omega));
        kindr::Acceleration3D a;
        MON_CHECK(c.evaluateLinearAcceleration(a, s), "acceleration at " << s);
        MON_NEAR("acceleration", (acc - a.vector()).norm(), 0, 1e-6 * ps / dt * tq, "t=" << s << " segment " << i << " reported " << a << " observed " << show(acc));
        mon::count("stencils");
      }
    }
    // between the knots: the cubic, and the rotation of Kim, Kim and Shin, given by poses and twists of the knots
    for (size_t i = 0; i + 1 < n; ++i) {
      const double dt = t[i + 1] - t[i];
      const V3 pa = p[i].getPosition().vector(), pb = p[i + 1].getPosition().vector();
      const KimKimShin kks(p[i].getRotation(), p[i + 1].getRotation(), ang(w[i]), ang(w[i + 1]), dt);
      bool clear = double(kks.w[1].norm()) < kAmbiguous;
      for (size_t j : {i, i + 1}) if (j > 0 && j + 1 < n && slope(p[j - 1].getRotation(), p[j + 1].getRotation()).norm() >= kAmbiguous) clear = false;
      for (int k = 0; k < 4; ++k) {
        const double s = k == 0 ? t[i] : k == 3 ? t[i + 1] : k == 1 ? r.real(t[i], t[i + 1]) : t[i] + dt * (r.chance(0.5) ? 0.5 : r.chance(0.5) ? r.logreal(1e-9, 1e-2) : 1 - r.logreal(1e-9, 1e-2));
        if (s < t[i] || s > t[i + 1] || (s == t[i + 1] && i + 2 < n)) continue;
        if (s == t[i + 1]) mon::count("ends");
        const double tt = 1e-12 * (1 + std::fabs(s) / dt), scale = pa.norm() + pb.norm() + dt * (lin(w[i]).norm() + lin(w[i + 1]).norm()) + 1e-12;
        L ref[3][3];
        cubic(t[i], t[i + 1], pa, lin(w[i]), pb, lin(w[i + 1]), s, ref);
        const Pose x = at(c, s);
        const TwistG g = dAt(c, s);
        kindr::Acceleration3D a;
        MON_CHECK(c.evaluateLinearAcceleration(a, s), "acceleration at " << s);
        L left[3][3];
        const bool knot = i > 0 && s == t[i];
        if (knot) cubic(t[i - 1], t[i], p[i - 1].getPosition().vector(), lin(w[i - 1]), pa, lin(w[i]), s, left);
        for (int q = 0; q < 3; ++q) {
          MON_NEAR("cubic", x.getPosition().vector()[q], double(ref[0][q]), scale * tt, "t=" << s << " segment " << i);
          MON_NEAR("cubic_velocity", lin(g)[q], double(ref[1][q]), 20 * scale * tt / dt, "t=" << s << " segment " << i);
          const double tol = 100 * scale * tt / (dt * dt);
          if (knot && std::fabs(a.vector()[q] - double(left[2][q])) <= tol) continue;  // either side at a knot
          MON_NEAR("cubic_acceleration", a.vector()[q], double(ref[2][q]), tol, "t=" << s << " segment " << i);
        }
        if (clear) {
          const L u = (L(s) - t[i]) / (L(t[i + 1]) - t[i]);
          MON_NEAR("rotation_between", dist(lq(x.getRotation()), kks.at(u)), 0, tt * (10 + 10 * double(kks.speed())), "t=" << s << " segment " << i << " got " << x.getRotation());
          mon::count("rotations_between");
        }
      }
    }
    TwistG dummy;
    for (unsigned o : {0u, 2u, 3u}) MON_CHECK(!c.evaluateDerivative(dummy, t[0], o), "derivative order " << o << " accepted");
    // left equivariance, where no rotation between knots is numerically ambiguous
    for (size_t i = 0; i + 1 < n && safe; ++i) {
      const double third = (t[i + 1] - t[i]) / 3;
      const Quat e1 = Quat().exponentialMap(-third * p[i].getRotation().inverseRotate(ang(w[i]))),
                 e3 = Quat().exponentialMap(-third * p[i + 1].getRotation().inverseRotate(ang(w[i + 1])));
      if (slope(Quat(), e1 * p[i].getRotation().inverted() * p[i + 1].getRotation() * e3).norm() >= kAmbiguous) safe = false;
    }
    if (safe) {
      const Pose G = pose(r, 5);
      std::vector<Pose> gp;
      for (auto& x : p) gp.push_back(G * x);
      SE3C m;
      const bool moved = r.chance(0.4);  // a copy of the curve moved as a whole, instead of a curve through moved poses
      if (moved) { m = c; m.transformCurve(G); mon::count("moved_curves"); MON_CHECK(m.size() == int(n) && m.getMinTime() == t.front() && m.getMaxTime() == t.back(), "size and range of a moved curve"); }
      else m.fitCurveWithDerivatives(t, gp, TwistG(G.getRotation().rotate(lin(d0)), G.getRotation().rotate(ang(d0))), TwistG(G.getRotation().rotate(lin(d1)), G.getRotation().rotate(ang(d1))));
      for (int q = 0; q < 8; ++q) {
        const double s = r.real(t.front(), t.back());
        const Pose a = G * at(c, s), b = at(m, s);
        const double sc = 1 + a.getPosition().norm() + t.back() - t.front();
        MON_NEAR("equivariance_position", (a.getPosition() - b.getPosition()).norm(), 0, 1e-9 * sc * (1 + std::fabs(s)), "t=" << s);
        MON_NEAR("equivariance_rotation", quatDist(a.getRotation(), b.getRotation()), 0, 1e-8 * (1 + std::fabs(s)), "t=" << s << " moved curve " << b << " moved pose " << a);
        const TwistG u = dAt(c, s), z = dAt(m, s);
        const double wl = 1 + lin(u).norm() + sc, wa = 1 + ang(u).norm();
        MON_NEAR("equivariance_velocity", (G.getRotation().rotate(lin(u)) - lin(z)).norm(), 0, 1e-8 * wl * (1 + std::fabs(s)), "t=" << s);
        MON_NEAR("equivariance_angular_velocity", (G.getRotation().rotate(ang(u)) - ang(z)).norm(), 0, 1e-6 * wa * (1 + std::fabs(s)), "t=" << s << " moved curve " << show(ang(z)) << " moved velocity " << show(G.getRotation().rotate(ang(u))));
        mon::count("equivariance");
      }
    }
    uint64_t h = 3;
    for (size_t i = 0; i < n; ++i) h = hashP(mon::hashD(h, t[i]), p[i]);
    if (n >= 3) mon::nontrivial(h);
    if (n >= 3) mon::sample("knots " + mon::list(t) + ", " + std::to_string(n) + " poses, end twists " + show(lin(d0)) + show(ang(d0)));
    if (r.chance(0.2)) { c.clear(); MON_CHECK(c.isEmpty(), "cleared"); fails(c, 0, "cleared curve"); fails(c, t[0], "cleared curve"); mon::count("clears"); }
  }
}
int main(int argc, char** argv) { quietCerr(); return mon::run(argc, argv, "C20", oneCase); }
