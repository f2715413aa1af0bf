// C18: Euclidean Hermite curve = Catmull-Rom cubic through its knots.
#include "hermite.hpp"
using namespace her;
typedef curves::CubicHermiteE3Curve E3;

static void fails(E3& c, double t, const char* what) {
  V3 v = V3::Zero();
  MON_CHECK(!c.evaluate(v, t), what << ": evaluate at " << t);
  MON_CHECK(!c.evaluateDerivative(v, t, 1), what << ": first derivative at " << t);
  MON_CHECK(!c.evaluateDerivative(v, t, 2), what << ": second derivative at " << t);
  MON_CHECK(!c.evaluateLinearAcceleration(v, t), what << ": acceleration at " << t);
  mon::count("refusals");
}

static void checkCurve(Rng& r, E3& c, const std::vector<double>& t, const std::vector<V3>& p, const std::vector<V3>& v) {
  const size_t n = t.size();
  MON_CHECK(!c.isEmpty() && c.size() == int(n), "size " << c.size() << " of " << n << " knots");
  MON_CHECK(c.getMinTime() == t.front() && c.getMaxTime() == t.back(), "time range " << c.getMinTime() << " " << c.getMaxTime());
  V3 x;
  for (double d : {1e-9 * (1 + std::fabs(t.front())), 0.1, 1e6}) { fails(c, t.front() - d, "before the start"); fails(c, t.back() + d, "after the end"); }
  fails(c, std::nextafter(t.front(), -1e300), "just before the start");
  fails(c, std::nextafter(t.back(), 1e300), "just after the end");
  if (n == 1) {
    MON_CHECK(c.evaluate(x, t[0]), "single knot");
    MON_CHECK(x == p[0], "single knot " << show(x) << " instead of " << show(p[0]));
    MON_CHECK(c.evaluateDerivative(x, t[0], 1) && x == v[0], "velocity of a single knot " << show(x) << " instead of " << show(v[0]));
    mon::count("single_knot");
    return;
  }
  std::vector<double> q(t);
  for (size_t i = 0; i + 1 < n; ++i) {
    q.push_back(std::nextafter(t[i + 1], -1e300));
    q.push_back(std::nextafter(t[i], 1e300));
    for (int k = 0; k < 3; ++k) q.push_back(r.real(t[i], t[i + 1]));
    q.push_back(0.5 * (t[i] + t[i + 1]));
    q.push_back(t[i] + (t[i + 1] - t[i]) * r.logreal(1e-9, 1e-2));
  }
  for (double s : q) {
    const size_t i = segmentOf(t, s);
    const double dt = t[i + 1] - t[i];
    const double scale = p[i].norm() + p[i + 1].norm() + dt * (v[i].norm() + v[i + 1].norm()) + 1e-12;
    L ref[3][3];
    cubic(t[i], t[i + 1], p[i], v[i], p[i + 1], v[i + 1], s, ref);
    const double tt = 1e-12 * (1 + std::fabs(s) / dt);
    V3 d1, d2, d3;
    MON_CHECK(c.evaluate(x, s), "evaluate at " << s << " in [" << t.front() << "," << t.back() << "]");
    MON_CHECK(c.evaluateDerivative(d1, s, 1), "derivative at " << s);
    MON_CHECK(c.evaluateDerivative(d2, s, 2), "second derivative at " << s);
    MON_CHECK(c.evaluateLinearAcceleration(d3, s), "acceleration at " << s);
    MON_CHECK(d2 == d3, "two second derivatives at " << s << " " << show(d2) << show(d3));
    bool knot = false;
    L other[3][3];
    if (i > 0 && s == t[i]) { knot = true; cubic(t[i - 1], t[i], p[i - 1], v[i - 1], p[i], v[i], s, other); }
    for (int k = 0; k < 3; ++k) {
      MON_NEAR("value", x[k], double(ref[0][k]), scale * tt, "t=" << s << " knots " << mon::list(t));
      MON_NEAR("velocity", d1[k], double(ref[1][k]), 20 * scale * tt / dt, "t=" << s << " knots " << mon::list(t));
      const double tol = 100 * scale * tt / (dt * dt);
      if (knot && std::fabs(d2[k] - double(other[2][k])) <= tol) continue;  // either side at a knot
      MON_NEAR("acceleration", d2[k], double(ref[2][k]), tol, "t=" << s << " knots " << mon::list(t));
    }
    mon::count("evaluations_inside");
  }
  for (size_t i = 0; i < n; ++i) {
    V3 d1;
    c.evaluate(x, t[i]);
    c.evaluateDerivative(d1, t[i], 1);
    MON_NEAR("knot", (x - p[i]).norm(), 0, 1e-12 * (1 + p[i].norm()), "knot " << i << " of " << n);
    MON_NEAR("knot_velocity", (d1 - v[i]).norm(), 0, 1e-11 * (1 + v[i].norm()), "knot " << i << " of " << n << " got " << show(d1) << " expected " << show(v[i]));
  }
  for (unsigned o : {0u, 3u, 4u, 100u}) {
    V3 d;
    MON_CHECK(!c.evaluateDerivative(d, t[0], o), "derivative order " << o << " accepted");
  }
}

static void oneCase(Rng& r, uint64_t) {
  E3 c;
  const int rounds = r.range(1, 3);
  uint64_t h = 7;
  if (r.chance(0.3)) { MON_CHECK(c.isEmpty() && c.size() == 0, "fresh curve"); fails(c, 0, "fresh curve"); fails(c, r.value(5), "fresh curve"); mon::count("empty_curves"); }
  for (int k = 0; k < rounds; ++k) {
    const bool wide = r.chance(0.2);
    const int n = r.chance(0.1) ? 1 : r.chance(0.2) ? 2 : r.chance(0.02) ? r.range(40, 400) : r.range(3, 20);
    if (n >= 40) mon::count("large_curves");
    std::vector<double> t = gen::knots(r, n, wide ? 1e-3 : 0.05, wide ? 1e3 : 5, gen::startTime(r));
    const double sc = wide ? r.logreal(1e-3, 1e4) : 1;
    std::vector<V3> p, v(size_t(n), V3::Zero());
    for (int i = 0; i < n; ++i) p.push_back(i && r.chance(0.15) ? p.back() : vec(r, 5 * sc));
    V3 v0 = V3::Zero(), v1 = V3::Zero();
    KeyWatch kw;
    std::vector<curves::Key>* keys = kw.ask(r);
    const bool plain = r.chance(0.4);
    if (plain) { c.fitCurve(t, p, keys); mon::count("plain_fits"); }
    else {
      v0 = vec(r, 3 * sc); v1 = vec(r, 3 * sc);
      c.fitCurveWithDerivatives(t, p, v0, v1, keys);
      mon::count("fits_with_derivatives");
    }
    kw.check(keys, size_t(n));
    if (k) mon::count("refits");
    mon::op("fit " + mon::list(t));
    v.front() = v0;
    if (n > 1) v.back() = v1;
    for (int i = 1; i + 1 < n; ++i) v[size_t(i)] = (p[size_t(i) + 1] - p[size_t(i) - 1]) / (t[size_t(i) + 1] - t[size_t(i) - 1]);
    checkCurve(r, c, t, p, v);
    for (int i = 0; i < n; ++i) h = hashV(mon::hashD(h, t[size_t(i)]), p[size_t(i)]);
    if (n >= 3) mon::nontrivial(h);
    if (r.chance(0.2)) {
      c.clear();
      MON_CHECK(c.isEmpty() && c.size() == 0, "cleared curve");
      fails(c, 0, "cleared curve");
      fails(c, t[0], "cleared curve");
      mon::count("clears");
    }
    if (n >= 3) mon::sample("knots " + mon::list(t) + " first " + show(p[0]) + " end velocities " + show(v0) + show(v1));
  }
}
int main(int argc, char** argv) { quietCerr(); return mon::run(argc, argv, "C18", oneCase); }
