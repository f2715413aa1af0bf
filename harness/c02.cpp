// C02: values, derivatives and time vectors are those of one polynomial.
#include <curves/polynomial_splines.hpp>
#include "orders.hpp"
using namespace curves;
using namespace mon;

// d-th derivative of t^p, in extended precision.
static long double mono(int p, int d, long double t) {
  long double c = 1;
  for (int i = 0; i < d; ++i) c *= (p - i);
  if (p < d) return 0;
  long double r = 1;
  for (int i = 0; i < p - d; ++i) r *= t;
  return c * r;
}

template <int N, class V>
static void expectRow(const V& v, int d, double t, const char* what) {
  for (int i = 0; i <= N; ++i) {
    const double e = double(mono(N - i, d, t));
    MON_NEAR("time_vector", double(v(i)), e, 1e-13 * std::fabs(e) + 1e-300, what << " order " << N << " derivative " << d << " t=" << t << " entry " << i);
  }
  count(what);
}

template <int N>
static void timeVectors(Rng& r, double t) {
  using S = PolynomialSpline<N>;
  using Row = typename S::EigenTimeVectorType;
  const int C = N + 1;
  // object
  { Row v = Row::Constant(7.5); S::getTimeVector(v, t); expectRow<N>(v, 0, t, "getTimeVector"); }
  { Row v = Row::Constant(7.5); S::getDiffTimeVector(v, t); expectRow<N>(v, 1, t, "getDiffTimeVector"); }
  { Row v = Row::Constant(7.5); S::getDDiffTimeVector(v, t); expectRow<N>(v, 2, t, "getDDiffTimeVector"); }
  { Row v = Row::Constant(7.5); S::getDTimeVector(v, t); expectRow<N>(v, 1, t, "getDTimeVector"); }
  { Row v = Row::Constant(7.5); S::getDDTimeVector(v, t); expectRow<N>(v, 2, t, "getDDTimeVector"); }
  { Row v = Row::Constant(7.5); S::getTimeVectorAtZero(v); expectRow<N>(v, 0, 0.0, "getTimeVectorAtZero"); }
  { Row v = Row::Constant(7.5); S::getDTimeVectorAtZero(v); expectRow<N>(v, 1, 0.0, "getDTimeVectorAtZero"); }
  { Row v = Row::Constant(7.5); S::getDDTimeVectorAtZero(v); expectRow<N>(v, 2, 0.0, "getDDTimeVectorAtZero"); }
  { Row v = Row::Constant(7.5); S::getDiffTimeVectorAtZero(v); expectRow<N>(v, 1, 0.0, "getDiffTimeVectorAtZero"); }
  { Row v = Row::Constant(7.5); S::getDDiffTimeVectorAtZero(v); expectRow<N>(v, 2, 0.0, "getDDiffTimeVectorAtZero"); }
  // Ref overload
  { Row v = Row::Constant(7.5); Eigen::Ref<Row> ref(v); S::getTimeVector(ref, t); expectRow<N>(v, 0, t, "getTimeVector_ref"); }
  { Row v = Row::Constant(7.5); Eigen::Ref<Row> ref(v); S::getTimeVectorAtZero(ref); expectRow<N>(v, 0, 0.0, "getTimeVectorAtZero_ref"); }
  // blocks of a larger matrix: only the block may change
  auto block = [&](int which) {
    Eigen::MatrixXd A = Eigen::MatrixXd::Constant(4, C + 5, -3.25);
    const int row = r.range(0, 3), col = r.range(0, 5);
    int d = 0; double te = t; bool add = false;
    auto dynamicBlock = A.block(row, col, 1, C);
    auto fixedBlock = A.template block<1, N + 1>(row, col);
    switch (which) {
      case 0: S::getTimeVector(dynamicBlock, t); d = 0; break;
      case 1: S::getTimeVector(fixedBlock, t); d = 0; break;
      case 2: S::getDiffTimeVector(dynamicBlock, t); d = 1; break;
      case 3: S::getDDiffTimeVector(fixedBlock, t); d = 2; break;
      case 4: S::getTimeVectorAtZero(fixedBlock); d = 0; te = 0; break;
      case 5: S::getDiffTimeVectorAtZero(fixedBlock); d = 1; te = 0; break;
      case 6: S::getDDiffTimeVectorAtZero(dynamicBlock); d = 2; te = 0; break;
      case 7: S::addTimeVector(dynamicBlock, t); d = 0; add = true; break;
      case 8: S::addDiffTimeVector(fixedBlock, t); d = 1; add = true; break;
      case 9: S::addDDiffTimeVector(dynamicBlock, t); d = 2; add = true; break;
      case 10: S::addTimeVectorAtZero(fixedBlock); d = 0; te = 0; add = true; break;
      case 11: S::addDiffTimeVectorAtZero(dynamicBlock); d = 1; te = 0; add = true; break;
      default: S::addDDiffTimeVectorAtZero(fixedBlock); d = 2; te = 0; add = true; break;
    }
    for (int i = 0; i < A.rows(); ++i)
      for (int j = 0; j < A.cols(); ++j) {
        const bool in = i == row && j >= col && j < col + C;
        const double m = in ? double(mono(N - (j - col), d, te)) : 0;
        const double e = in ? (add ? m - 3.25 : m) : -3.25;
        MON_NEAR("time_vector_block", A(i, j), e, in ? 1e-13 * (std::fabs(m) + (add ? 3.25 : 0)) + 1e-300 : 0.0,
                 "block variant " << which << " order " << N << " t=" << te << " at " << i << "," << j);
      }
    count("block_arguments");
  };
  for (int k = 0; k < 13; ++k) block(k);
  // add* on objects, repeatedly: sums
  { Row v = Row::Zero(); double t2 = r.value(3.0);
    S::addTimeVector(v, t); S::addTimeVector(v, t2);
    for (int i = 0; i <= N; ++i) { double a = double(mono(N - i, 0, t)), b = double(mono(N - i, 0, t2)); MON_NEAR("add", v(i), a + b, 1e-13 * (std::fabs(a) + std::fabs(b)), "addTimeVector twice, order " << N << " t=" << t << "," << t2); }
    v.setZero(); S::addDiffTimeVector(v, t); S::addDiffTimeVectorAtZero(v);
    for (int i = 0; i <= N; ++i) { double a = double(mono(N - i, 1, t)), b = double(mono(N - i, 1, 0)); MON_NEAR("add", v(i), a + b, 1e-13 * (std::fabs(a) + std::fabs(b)), "addDiffTimeVector, order " << N << " t=" << t); }
    v.setZero(); S::addDDiffTimeVector(v, t); S::addDDiffTimeVectorAtZero(v);
    for (int i = 0; i <= N; ++i) { double a = double(mono(N - i, 2, t)), b = double(mono(N - i, 2, 0)); MON_NEAR("add", v(i), a + b, 1e-13 * (std::fabs(a) + std::fabs(b)), "addDDiffTimeVector, order " << N << " t=" << t); }
    v.setZero(); S::addTimeVectorAtZero(v); expectRow<N>(v, 0, 0.0, "addTimeVectorAtZero"); }
}

template <int N>
void oneOrder(Rng& r) {
  using S = PolynomialSpline<N>;
  typename S::SplineCoefficients c;
  static_assert(S::coefficientCount == N + 1 && S::splineOrder == N, "order");
  const double sc = r.chance(0.3) ? r.logreal(1e-9, 1e9) : r.logreal(1e-3, 1e3);
  for (auto& x : c) x = r.value(sc);
  if (r.chance(0.3)) { const size_t k = r.below(N + 1); for (size_t i = 0; i < c.size(); ++i) c[i] = i == k ? sc : 0.0; }
  const double dur = r.chance(0.3) ? r.logreal(1e-7, 1e6) : r.logreal(0.01, 50.0);
  S s(c, dur);
  if (r.chance(0.5)) { S t; t.setCoefficientsAndDuration(c, dur); s = t; }
  if (r.chance(0.2)) { auto* p = s.getCoefficientsPtr(); for (auto& x : *p) x = r.value(sc); c = *p; }
  for (size_t i = 0; i < c.size(); ++i) MON_CHECK(s.getCoefficients()[i] == c[i], "coefficient " << i << " order " << N);
  const S& cs = s;
  for (int k = 0; k < 12; ++k) {
    const double t = k == 0 ? 0.0 : k == 1 ? dur : k == 2 ? dur * 0.5 : k == 3 ? std::nextafter(dur, 0.0) : k == 4 ? 1e-9 * dur : k == 5 ? std::min(dur, r.range(1, 64) / 16.0) : k == 6 ? std::min(dur, r.chance(0.5) ? 0.5 : 1.0) : r.real(0.0, dur);
    for (int d = 0; d < 3; ++d) {
      long double e = 0, mag = 0;
      for (int i = 0; i <= N; ++i) { const long double m = mono(N - i, d, t) * c[size_t(i)]; e += m; mag += std::fabs((double)m); }
      const double got = d == 0 ? cs.getPositionAtTime(t) : d == 1 ? cs.getVelocityAtTime(t) : cs.getAccelerationAtTime(t);
      MON_NEAR("evaluation", got, double(e), 1e-12 * double(mag) + 1e-300, "order " << N << " derivative " << d << " t=" << t << " duration=" << dur << " coefficients " << list(c));
      // and through the time-vector API: s = tau * alpha
      typename S::EigenTimeVectorType tv;
      if (d == 0) S::getTimeVector(tv, t); else if (d == 1) S::getDiffTimeVector(tv, t); else S::getDDiffTimeVector(tv, t);
      const double dot = tv.dot(Eigen::Map<const typename S::EigenCoefficientVectorType>(cs.getCoefficients().data()).transpose());
      MON_NEAR("tau_alpha", got, dot, 1e-12 * double(mag) + 1e-300, "order " << N << " derivative " << d << " t=" << t);
      count("evaluations");
    }
  }
  for (int k = 0; k < 3; ++k) timeVectors<N>(r, k == 0 ? (r.chance(0.2) ? r.range(-32, 32) / 16.0 : r.real(0, 3)) : k == 1 ? (r.chance(0.5) ? r.value(100.0) : r.logreal(1e-8, 1e6) * (r.chance(0.5) ? 1 : -1)) : 0.0);
  uint64_t h = hashI(1469598103934665603ull, N);
  bool nz = false;
  for (double x : c) { h = hashD(h, x); nz |= x != 0; }
  if (nz) nontrivial(hashD(h, dur));
  sample("order " + std::to_string(N) + " coefficients " + list(c) + " duration " + num(dur));
}
ORDERS_MAIN("C02", runOrder(1 + int(id % 5), r);)
