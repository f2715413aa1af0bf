// C09: vector curves against independently fitted scalar curves, component by component.
#include <glog/logging.h>
#include <curves/PolynomialSplineScalarCurve.hpp>
#include <curves/PolynomialSplineVectorSpaceCurve.hpp>
#include "gen.hpp"
using namespace curves;
using namespace mon;
using C = PolynomialSplineQuinticScalarCurve;

template <int N>
static void oneDim(Rng& r) {
  using V = PolynomialSplineVectorSpaceCurve<PolynomialSplineQuintic, N>;
  using Vec = typename V::ValueType;
  using Der = typename V::DerivativeType;
  V v;
  C s[N];
  std::vector<double> prevT; std::vector<Vec> prevX; Der prevB[4];
  const int rounds = r.range(1, 3);
  for (int round = 0; round < rounds; ++round) {
    int n = r.chance(0.25) ? 2 : r.chance(0.01) ? r.range(20, 40) : r.range(2, 12);
    double t0 = gen::startTime(r);
    std::vector<double> t = gen::knotsAnySpacing(r, n, 0.1, 4.0, t0);
    const double sc = r.logreal(1e-2, 1e2);
    std::vector<Vec> x(n);
    for (int j = 0; j < N; ++j) { const auto y = gen::values(r, n, r.chance(0.2) ? 0.0 : sc); for (int i = 0; i < n; ++i) x[i](j) = y[i]; }
    const int how = r.range(0, 2);
    Der b[4];
    for (Der& q : b) for (int j = 0; j < N; ++j) q(j) = how == 0 ? 0.0 : r.value(sc);
    if (round > 0 && r.chance(0.4)) {  // the previous data with one component changed
      t = prevT; x = prevX; n = int(t.size()); t0 = t[0];
      if (how) { for (int i = 0; i < 4; ++i) b[i] = prevB[i]; b[r.below(4)](int(r.below(N))) += sc; }
      if (how == 0 || r.chance(0.5)) x[r.below(uint64_t(n))](int(r.below(N))) += sc;
      count("varied_refits");
    }
    for (int j = 1; j < N; ++j) if (r.chance(0.2)) {  // components that have most of their data in common
      const int k = r.chance(0.5) ? j - 1 : int(r.below(uint64_t(j)));
      for (int i = 0; i < n; ++i) x[i](j) = x[i](k);
      if (r.chance(0.3)) x[r.below(uint64_t(n))](j) += sc;
      if (how) for (Der& q : b) if (r.chance(0.75)) q(j) = q(k);
      count("similar_components");
    }
    prevT = t; prevX = x; for (int i = 0; i < 4; ++i) prevB[i] = b[i];
    std::ostringstream d; d.precision(17);
    d << "N=" << N << " overload " << how << " n=" << n << " t=" << list(t);
    const std::string D = d.str();
    op(D);
    if (how == 0) { if (r.chance(0.5)) v.fitCurve(t, x); else { std::vector<Key> k; v.fitCurve(t, x, &k); } count("fit_plain"); }
    else if (how == 1) { v.fitCurve(t, x, b[0], b[1], b[2], b[3]); count("fit_vectors"); }
    else {
      std::vector<Der> f(n), g(n);
      for (int i = 0; i < n; ++i) for (int j = 0; j < N; ++j) { f[i](j) = r.value(50); g[i](j) = r.value(50); }  // inner ones do not count
      f.front() = b[0]; g.front() = b[1]; f.back() = b[2]; g.back() = b[3];
      v.fitCurve(t, x, f, g);
      count("fit_lists");
    }
    double S = 1e-9;
    for (int j = 0; j < N; ++j) {
      std::vector<double> y;
      for (int i = 0; i < n; ++i) { y.push_back(x[i](j)); S = std::max(S, std::fabs(x[i](j))); }
      for (const Der& q : b) S = std::max(S, 16 * std::fabs(q(j)));
      s[j].fitCurve(t, y, b[0](j), b[1](j), b[2](j), b[3](j));
    }
    const double tol[3] = {1e-9 * S, 1e-7 * S, 1e-5 * S};
    auto compare = [&](double q) {
      for (unsigned k = 0; k < 3; ++k) {
        Vec y; y.fill(-7e77);
        MON_CHECK(k ? v.evaluateDerivative(y, q, k) : v.evaluate(y, q), "refused at " << q << " " << D);
        for (int j = 0; j < N; ++j) {
          double e = 0;
          MON_CHECK(k ? s[j].evaluateDerivative(e, q, k) : s[j].evaluate(e, q), "scalar refused");
          MON_NEAR("component", y(j), e, tol[k], "component " << j << " derivative " << k << " at " << q << " " << D);
        }
      }
      count("queries");
    };
    for (int j = 0; j < N; ++j)
      MON_CHECK(v.getMinTime() == s[j].getMinTime() && std::fabs(v.getMaxTime() - s[j].getMaxTime()) <= 1e-9 * (1 + t[n - 1] - t0), "time range [" << v.getMinTime() << "," << v.getMaxTime() << "] against [" << s[j].getMinTime() << "," << s[j].getMaxTime() << "] " << D);
    for (int i = 0; i < n; ++i) {
      compare(t[i]);
      Vec y; v.evaluate(y, t[i]);
      for (int j = 0; j < N; ++j) MON_NEAR("sample", y(j), x[i](j), 1e-6 * S, "sample " << i << " component " << j << " " << D);
    }
    for (int i = 0; i < 12; ++i) compare(r.real(t[0] - 0.5, t[n - 1] + 0.5));
    compare(t[0] - 3); compare(t[n - 1] + 3);
    // boundary derivatives directly
    Der y;
    MON_CHECK(v.evaluateDerivative(y, t[0], 1), "");     for (int j = 0; j < N; ++j) MON_NEAR("start_vel", y(j), b[0](j), 1e-5 * S, D);
    MON_CHECK(v.evaluateDerivative(y, t[0], 2), "");     for (int j = 0; j < N; ++j) MON_NEAR("start_acc", y(j), b[1](j), 1e-3 * S, D);
    MON_CHECK(v.evaluateDerivative(y, t[n - 1] + 1, 1), ""); for (int j = 0; j < N; ++j) MON_NEAR("end_vel", y(j), b[2](j), 1e-5 * S, D);
    MON_CHECK(v.evaluateDerivative(y, t[n - 1] + 1, 2), ""); for (int j = 0; j < N; ++j) MON_NEAR("end_acc", y(j), b[3](j), 1e-3 * S, D);
    static const unsigned orders[] = {0u, 3u, 4u, 5u, 17u, 257u, 65538u, 0xffffffffu};
    const unsigned o = orders[r.below(8)];
    MON_CHECK(!v.evaluateDerivative(y, t[0], o), "derivative order " << o << " not refused " << D);
    count("refused_orders");
    count((std::string("dim_") + std::to_string(N)).c_str());
    uint64_t h = hashI(1469598103934665603ull, N * 10 + how);
    for (double q : t) h = hashD(h, q);
    nontrivial(hashD(h, x[0](0)));
    if (round == 1) { sample(D); count("refits"); }
  }
}
int main(int argc, char** argv) {
  return run(argc, argv, "C09", [](Rng& r, uint64_t id) {
    switch (id % 8) {
      case 0: oneDim<1>(r); break; case 1: oneDim<2>(r); break; case 2: oneDim<6>(r); break;
      case 3: oneDim<4>(r); break; case 4: oneDim<9>(r); break; case 5: oneDim<12>(r); break; default: oneDim<3>(r); }
  });
}
