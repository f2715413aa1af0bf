// C01: boundary conditions of a single spline.
#include <curves/polynomial_splines.hpp>
#include "orders.hpp"
using namespace curves;
using namespace mon;

static const double TOL = 1e-9;

struct Opt { double tf, p0, pT, v0, vT, a0, aT; SplineOptions make() const { return SplineOptions(tf, p0, pT, v0, vT, a0, aT); } };

static Opt randomOpt(Rng& r) {
  Opt o;
  switch (r.below(6)) {
    case 0: o.tf = r.logreal(0.01, 100.0); break;
    case 4: o.tf = r.logreal(1e-6, 0.05); break;     // down to a microsecond
    case 5: o.tf = r.logreal(20.0, 1e5); break;      // up to a day
    case 1: o.tf = r.real(0.05, 20.0); break;
    case 2: { static const double e[] = {0.05, 0.1, 0.25, 0.5, 1.0, 2.0, 4.0, 10.0, 20.0}; o.tf = e[r.below(9)]; break; }
    default: o.tf = r.real(0.5, 2.0);
  }
  const double sc = r.chance(0.2) ? r.logreal(1e-9, 1e9) : r.logreal(1e-2, 1e3);
  double* f[] = {&o.p0, &o.pT, &o.v0, &o.vT, &o.a0, &o.aT};
  const int mode = r.range(0, 9);
  for (int i = 0; i < 6; ++i) *f[i] = r.value(sc);
  if (mode < 6) { for (int i = 0; i < 6; ++i) if (i != mode) *f[i] = 0; if (*f[mode] == 0) *f[mode] = sc; }  // one condition only
  if (mode == 6) { o.p0 = o.pT; }
  if (mode == 7) { o.v0 /= o.tf; o.vT /= o.tf; o.a0 /= o.tf * o.tf; o.aT /= o.tf * o.tf; }  // all conditions of comparable weight
  return o;
}

template <int N>
static void verify(const PolynomialSpline<N>& s, const Opt& o, const char* how) {
  const double tf = o.tf;
  double S = std::max(std::fabs(o.p0), std::fabs(o.pT));
  if (N >= 2) S = std::max(S, std::fabs(o.v0) * tf);
  if (N >= 3) S = std::max(S, std::fabs(o.vT) * tf);
  if (N >= 4) S = std::max(S, std::fabs(o.a0) * tf * tf);
  if (N >= 5) S = std::max(S, std::fabs(o.aT) * tf * tf);
  S = std::max(S, 1e-300);
  std::ostringstream d; d.precision(17);
  d << "order " << N << " via " << how << " tf=" << tf << " p=(" << o.p0 << "," << o.pT << ") v=(" << o.v0 << "," << o.vT << ") a=(" << o.a0 << "," << o.aT << ")";
  MON_CHECK(s.getSplineDuration() == tf, "duration " << s.getSplineDuration() << "; " << d.str());
  MON_NEAR("pos0", s.getPositionAtTime(0.0), o.p0, TOL * S, d.str());
  MON_NEAR("posT", s.getPositionAtTime(tf), o.pT, TOL * S, d.str());
  if (N >= 2) MON_NEAR("vel0", s.getVelocityAtTime(0.0), o.v0, TOL * S / tf, d.str());
  if (N >= 3) MON_NEAR("velT", s.getVelocityAtTime(tf), o.vT, TOL * S / tf, d.str());
  if (N >= 4) MON_NEAR("acc0", s.getAccelerationAtTime(0.0), o.a0, TOL * S / (tf * tf), d.str());
  if (N >= 5) MON_NEAR("accT", s.getAccelerationAtTime(tf), o.aT, TOL * S / (tf * tf), d.str());
  count((std::string("splines_order_") + std::to_string(N)).c_str());
  count(how);
}

template <int N>
void oneOrder(Rng& r) {
  using S = PolynomialSpline<N>;
  Opt o = randomOpt(r), prev = randomOpt(r);
  { const SplineOptions so = o.make(); S s(so); verify<N>(s, o, "ctor_const");
    S c(s); verify<N>(c, o, "copy");
    S a; a = s; verify<N>(a, o, "assign");
    S m(std::move(c)); verify<N>(m, o, "move");
    S ma; ma = std::move(a); verify<N>(ma, o, "move_assign");
    verify<N>(s, o, "source_after_copy"); }
  { S s(o.make()); verify<N>(s, o, "ctor_temporary"); }
  { S s(prev.make()); SplineOptions so = o.make(); MON_CHECK(s.computeCoefficients(so), "compute failed"); verify<N>(s, o, "recompute");
    MON_CHECK(s.computeCoefficients(prev.make()), "compute failed"); verify<N>(s, prev, "recompute_temporary"); }
  { S s; MON_CHECK(s.computeCoefficients(o.make()), "compute failed"); verify<N>(s, o, "default_then_compute");
    S t; t.setCoefficientsAndDuration(s.getCoefficients(), s.getSplineDuration()); verify<N>(t, o, "set_coefficients");
    S u(s.getCoefficients(), s.getSplineDuration()); verify<N>(u, o, "ctor_coefficients");
    auto cf = s.getCoefficients(); S w(std::move(cf), o.tf); verify<N>(w, o, "ctor_coefficients_move");
    S x(prev.make()); x = S(o.make()); verify<N>(x, o, "assign_temporary"); }
  { std::vector<S> v; std::vector<Opt> os;
    const int n = r.range(2, 9);
    for (int i = 0; i < n; ++i) { os.push_back(randomOpt(r)); v.emplace_back(os.back().make()); }
    for (int i = 0; i < n; ++i) verify<N>(v[i], os[i], "in_growing_vector"); }
  { SplineOptions d; d.tf_ = o.tf; d.pos0_ = o.p0; d.posT_ = o.pT; d.vel0_ = o.v0; d.velT_ = o.vT; d.acc0_ = o.a0; d.accT_ = o.aT;
    SplineOptions e(std::move(d)); SplineOptions f; f = std::move(e); S s(f); verify<N>(s, o, "options_set_by_member"); }
  uint64_t h = hashI(14695981039346656037ull, N);
  for (double x : {o.tf, o.p0, o.pT, o.v0, o.vT, o.a0, o.aT}) h = hashD(h, x);
  if (o.p0 != 0 || o.pT != 0 || o.v0 != 0 || o.vT != 0 || o.a0 != 0 || o.aT != 0) nontrivial(h);
  if (N == 5) sample("order 5 tf=" + num(o.tf) + " p0=" + num(o.p0) + " pT=" + num(o.pT) + " v0=" + num(o.v0) + " vT=" + num(o.vT) + " a0=" + num(o.a0) + " aT=" + num(o.aT));
}

ORDERS_MAIN("C01", for (int n = 1; n <= 5; ++n) runOrder(n, r);)
