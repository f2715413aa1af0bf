// C19: periodic fits have the seam slope at both ends and interpolate like the non-periodic fit.
#include "hermite.hpp"
using namespace her;
typedef curves::CubicHermiteE3Curve E3;
typedef curves::CubicHermiteSE3Curve SE3C;

// How much rounding of the times counts: largest time over shortest interval.
static double rounding(const std::vector<double>& t) {
  double shortest = 1e300;
  for (size_t i = 1; i < t.size(); ++i) shortest = std::min(shortest, t[i] - t[i - 1]);
  return 1 + std::max(std::fabs(t.front()), std::fabs(t.back())) / shortest;
}

static void e3(Rng& r) {
  E3 c, f;
  const int rounds = r.range(1, 2);
  for (int k = 0; k < rounds; ++k) {
    const size_t n = size_t(r.chance(0.1) ? 2 : r.chance(0.02) ? r.range(30, 300) : r.range(3, 16));
    std::vector<double> t = gen::knotsAnySpacing(r, int(n), 0.05, 5, gen::startTime(r), true);
    std::vector<V3> p;
    for (size_t i = 0; i + 1 < n; ++i) p.push_back(vec(r, 5));
    p.push_back(p[0]);
    KeyWatch kw;
    std::vector<curves::Key>* keys = kw.ask(r);
    c.fitPeriodicCurve(t, p, keys);
    kw.check(keys, n);
    mon::op("E3 periodic fit " + mon::list(t));
    const double gap = (t[1] - t[0]) + (t[n - 1] - t[n - 2]);
    const V3 want = (p[1] - p[n - 2]) / gap;
    V3 a, b, x, y;
    MON_CHECK(c.evaluateDerivative(a, t[0], 1) && c.evaluateDerivative(b, t[n - 1], 1), "evaluation at the ends");
    const double tol = 1e-11 * (1 + want.norm() + (p[1].norm() + p[n - 2].norm()) / gap) * rounding(t);
    MON_NEAR("e3_start", (a - want).norm(), 0, tol, "start velocity " << show(a) << " expected " << show(want) << " knots " << mon::list(t));
    MON_NEAR("e3_end", (b - want).norm(), 0, tol, "end velocity " << show(b) << " expected " << show(want) << " knots " << mon::list(t));
    f.fitCurveWithDerivatives(t, p, want, want);
    MON_CHECK(c.size() == int(n) && c.getMinTime() == t[0] && c.getMaxTime() == t[n - 1], "size and range");
    for (size_t i = 0; i < n; ++i) {
      MON_CHECK(c.evaluate(x, t[i]), "knot " << i);
      MON_NEAR("e3_knots", (x - p[i]).norm(), 0, 1e-11 * (1 + p[i].norm()), "knot " << i << " of " << n);
      if (i + 1 == n) break;
      const double s = r.real(t[i], t[i + 1]);
      MON_CHECK(c.evaluate(x, s) && f.evaluate(y, s), "inside at " << s);
      MON_NEAR("e3_inside", (x - y).norm(), 0, 10 * tol * (1 + t[n - 1] - t[0]), "inside at " << s);
      MON_CHECK(c.evaluateDerivative(x, s, 1) && f.evaluateDerivative(y, s, 1), "derivative inside at " << s);
      MON_NEAR("e3_inside_velocity", (x - y).norm(), 0, 10 * tol, "velocity inside at " << s);
    }
    mon::count("e3_fits");
    if (n >= 3) { mon::count("seams"); uint64_t h = 1; for (size_t i = 0; i < n; ++i) h = hashV(mon::hashD(h, t[i]), p[i]); mon::nontrivial(h); mon::sample("E3 periodic, knots " + mon::list(t) + " seam slope " + show(want)); }
  }
}

static void se3(Rng& r) {
  SE3C c, f;
  const int rounds = r.range(1, 2);
  for (int k = 0; k < rounds; ++k) {
    const size_t n = size_t(r.chance(0.1) ? 2 : r.chance(0.02) ? r.range(30, 200) : r.range(3, 12));
    std::vector<double> t = gen::knotsAnySpacing(r, int(n), 0.05, 5, gen::startTime(r), true);
    std::vector<Pose> p = poses(r, int(n) - 1);
    p.push_back(p[0]);
    if (r.chance(0.3)) { const Quat q = p[0].getRotation(); p.back() = Pose(p[0].getPosition(), Quat(-q.w(), -q.x(), -q.y(), -q.z())); }
    KeyWatch kw;
    std::vector<curves::Key>* keys = kw.ask(r);
    c.fitPeriodicCurve(t, p, keys);
    kw.check(keys, n);
    mon::op("SE3 periodic fit " + mon::list(t));
    const double gap = (t[1] - t[0]) + (t[n - 1] - t[n - 2]);
    const V3 wv = (p[1].getPosition().vector() - p[n - 2].getPosition().vector()) / gap;
    const V3 rv = slope(p[n - 2].getRotation(), p[1].getRotation());
    const V3 ww = rv / gap;
    TwistG a, b;
    MON_CHECK(c.evaluateDerivative(a, t[0], 1) && c.evaluateDerivative(b, t[n - 1], 1), "evaluation at the ends");
    const double tol = 1e-11 * (1 + wv.norm() + ww.norm() + (p[1].getPosition().norm() + p[n - 2].getPosition().norm()) / gap) * rounding(t);
    MON_NEAR("se3_start", (a.getTranslationalVelocity().vector() - wv).norm(), 0, tol, "start velocity " << a << " expected " << show(wv));
    MON_NEAR("se3_end", (b.getTranslationalVelocity().vector() - wv).norm(), 0, tol, "end velocity " << b << " expected " << show(wv));
    MON_NEAR("se3_equal", (a.getRotationalVelocity().vector() - b.getRotationalVelocity().vector()).norm(), 0, 1e-6 * (1 + ww.norm()), "angular velocities at the ends " << a << " / " << b);
    if (rv.norm() < kAmbiguous) {
      MON_NEAR("se3_start_angular", (a.getRotationalVelocity().vector() - ww).norm(), 0, 1e-6 * (1 + ww.norm()) + tol, "start " << a << " expected " << show(ww));
      MON_NEAR("se3_end_angular", (b.getRotationalVelocity().vector() - ww).norm(), 0, 1e-6 * (1 + ww.norm()) + tol, "end " << b << " expected " << show(ww));
      mon::count("se3_angular_seams");
    }
    f.fitCurveWithDerivatives(t, p, a, b);
    Pose x, y;
    MON_CHECK(c.size() == int(n) && c.getMinTime() == t[0] && c.getMaxTime() == t[n - 1], "size and range");
    for (size_t i = 0; i < n; ++i) {
      MON_CHECK(c.evaluate(x, t[i]), "knot " << i);
      MON_NEAR("se3_knots", (x.getPosition() - p[i].getPosition()).norm(), 0, 1e-11 * (1 + p[i].getPosition().norm()), "knot " << i << " of " << n);
      MON_NEAR("se3_knots_rotation", quatDist(x.getRotation(), p[i].getRotation()), 0, 1e-9, "knot " << i << " of " << n);
      if (i + 1 == n) break;
      const double s = r.real(t[i], t[i + 1]);
      MON_CHECK(c.evaluate(x, s) && f.evaluate(y, s), "inside at " << s);
      MON_NEAR("se3_inside", (x.getPosition() - y.getPosition()).norm(), 0, 10 * tol * (1 + t[n - 1] - t[0]), "inside at " << s);
      // twists at the knots and the rotation in between, unless a rotation near a half turn leaves its direction to rounding
      auto known = [&](size_t j) { return j == 0 || j + 1 == n || slope(p[j - 1].getRotation(), p[j + 1].getRotation()).norm() < kAmbiguous; };
      TwistG g, h;
      MON_CHECK(c.evaluateDerivative(g, t[i], 1) && f.evaluateDerivative(h, t[i], 1), "twist at knot " << i);
      MON_NEAR("se3_knot_velocity", (g.getTranslationalVelocity().vector() - h.getTranslationalVelocity().vector()).norm(), 0, 10 * tol, "knot " << i << " of " << n);
      const V3 wa = h.getRotationalVelocity().vector();
      if (!known(i) || !known(i + 1)) continue;
      MON_NEAR("se3_knot_angular_velocity", (g.getRotationalVelocity().vector() - wa).norm(), 0, 1e-6 * (1 + wa.norm()), "knot " << i << " of " << n);
      f.evaluateDerivative(h, t[i + 1], 1);
      const KimKimShin kks(p[i].getRotation(), p[i + 1].getRotation(), wa, h.getRotationalVelocity().vector(), t[i + 1] - t[i]);
      if (double(kks.w[1].norm()) >= kAmbiguous) continue;
      MON_NEAR("se3_inside_rotation", quatDist(x.getRotation(), y.getRotation()), 0, 1e-8 * (1 + double(kks.speed())), "inside at " << s);
      mon::count("se3_inside_rotations");
    }
    mon::count("se3_fits");
    if (n >= 3) { mon::count("seams"); uint64_t h = 2; for (size_t i = 0; i < n; ++i) h = hashP(mon::hashD(h, t[i]), p[i]); mon::nontrivial(h); }
  }
}
static void oneCase(Rng& r, uint64_t id) { if (id % 2) se3(r); else e3(r); }
int main(int argc, char** argv) { quietCerr(); return mon::run(argc, argv, "C19", oneCase); }
