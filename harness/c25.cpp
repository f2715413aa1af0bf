// C25: what print() shows of a curve is what the curve holds, and printing changes nothing.
#include "hermite.hpp"
#include "curves/SlerpSE3Curve.hpp"
#include <curves/PolynomialSplineScalarCurve.hpp>
using namespace her;
typedef curves::CubicHermiteE3Curve E3;
typedef curves::CubicHermiteSE3Curve SE3C;
class Slerp : public curves::SlerpSE3Curve {  // the library class leaves the bool interface of Curve unimplemented
 public:
  using curves::SlerpSE3Curve::evaluate;
  using curves::SlerpSE3Curve::evaluateDerivative;
  bool evaluate(ValueType&, curves::Time) const override { return false; }
  bool evaluateDerivative(DerivativeType&, curves::Time, unsigned) const override { return false; }
};
typedef curves::PolynomialSplineQuinticScalarCurve Q;

// Everything written to standard output meanwhile.
template <class F> static std::string captured(F f) {
  static const std::string file = mon::M().scratch + "/printed.txt";
  std::cout.clear();
  std::cout.flush();
  fflush(stdout);
  const int keep = dup(1), fd = open(file.c_str(), O_CREAT | O_RDWR | O_TRUNC, 0600);
  if (keep < 0 || fd < 0) throw std::logic_error("cannot capture standard output");
  dup2(fd, 1);
  f();
  std::cout.flush();
  fflush(stdout);
  dup2(keep, 1);
  close(keep);
  std::cout.setstate(std::ios::failbit);
  std::string out;
  char b[4096];
  lseek(fd, 0, SEEK_SET);
  for (ssize_t n; (n = read(fd, b, sizeof b)) > 0;) out.append(b, size_t(n));
  close(fd);
  return out;
}
// All numbers in a text that are not part of a word.
static std::vector<double> numbers(const std::string& s) {
  std::vector<double> v;
  for (size_t i = 0; i < s.size();) {
    const char c = s[i], n = i + 1 < s.size() ? s[i + 1] : ' ';
    const bool start = isdigit(c) || ((c == '-' || c == '+' || c == '.') && (isdigit(n) || n == '.'));
    if (start && (i == 0 || !(isalnum(s[i - 1]) || s[i - 1] == '_'))) {
      char* e;
      const double x = strtod(s.c_str() + i, &e);
      if (e == s.c_str() + i) { ++i; continue; }
      v.push_back(x);
      i = size_t(e - s.c_str());
    } else if (isalnum(c) || c == '_') while (i < s.size() && (isalnum(s[i]) || s[i] == '_')) ++i;
    else ++i;
  }
  return v;
}
// The text must show these numbers in this order (others may stand between them).
static void shows(const std::string& text, const std::vector<double>& want, const std::string& what) {
  const std::vector<double> got = numbers(text);
  size_t g = 0;
  for (size_t k = 0; k < want.size(); ++k) {
    while (g < got.size() && !(std::fabs(got[g] - want[k]) <= 1e-5 * std::fabs(want[k]) + 1e-300)) ++g;
    MON_CHECK(g < got.size(), what << ": number " << k << " of " << want.size() << " (" << mon::num(want[k]) << ") is missing in what was printed:\n" << text.substr(0, 3000));
    ++g;
    mon::count("printed_numbers");
  }
}
static std::string title(Rng& r) {
  static const char* t[] = {"", "reference", "curve under test", "%s %d", "a\nb"};
  if (r.chance(0.5)) return t[r.below(5)];
  static const char mark[] = "@#!%&?~QZ";  // characters that print() itself does not use, so that they can only come from the title
  std::string s;
  for (int n = r.chance(0.2) ? 1 : r.chance(0.1) ? r.range(100, 5000) : r.range(2, 80); n > 0; --n) s += s.empty() || r.chance(0.5) ? mark[r.below(9)] : " .-_/"[r.below(5)];
  if (s.size() > 1 && s.back() == ' ') s.back() = '#';
  mon::count("made_up_titles");
  return s;
}
static std::vector<double> printedKnots(Rng& r, int n, double lo, double hi) {
  const double t0 = gen::startTime(r);
  if (n > 1 && std::fabs(t0) < 1e3 && r.chance(0.1)) { mon::count("close_knots"); return gen::knots(r, n, 1e-5, 2e-3, t0); }
  return gen::knotsAnySpacing(r, n, lo, hi, t0);
}
template <class C> static void head(const C& c, size_t n, std::vector<double>& want) {
  want.push_back(double(n));
  want.push_back(c.getMinTime());
  want.push_back(c.getMaxTime());
}
static int knotCount(Rng& r) { return r.chance(0.1) ? 0 : r.chance(0.1) ? 1 : r.chance(0.03) ? r.range(50, 300) : r.range(2, 20); }

static void e3(Rng& r) {
  E3 c;
  const int n = knotCount(r);
  std::vector<double> t, want;
  std::vector<V3> p;
  std::vector<curves::Key> keys;
  uint64_t h = 21;
  if (n > 0) {
    t = printedKnots(r, n, 0.05, 5);
    for (int i = 0; i < n; ++i) { p.push_back(vec(r, 5)); h = hashV(mon::hashD(h, t[size_t(i)]), p.back()); }
    c.fitCurveWithDerivatives(t, p, vec(r, 3), vec(r, 3), &keys);
    head(c, size_t(n), want);
    for (int i = 0; i < n; ++i) { want.push_back(double(keys[size_t(i)])); for (int k = 0; k < 3; ++k) want.push_back(p[size_t(i)][k]); want.push_back(t[size_t(i)]); }
  } else { want.push_back(0); mon::count("empty_curves"); }
  const std::string s = title(r);
  const std::string out = captured([&] { c.print(s); });
  MON_CHECK(out.find(s) != std::string::npos, "the title '" << s << "' is not printed");
  shows(out, want, "Euclidean Hermite curve with " + std::to_string(n) + " knots");
  for (int i = 0; i < n; ++i) { V3 x; MON_CHECK(c.evaluate(x, t[size_t(i)]), "evaluate"); MON_NEAR("after_print", (x - p[size_t(i)]).norm(), 0, 1e-9 * (1 + p[size_t(i)].norm()), "knot " << i); }
  if (n > 1) mon::nontrivial(h);
  mon::count("e3_prints");
}
static void se3(Rng& r) {
  SE3C c;
  const int n = knotCount(r);
  std::vector<double> t, want;
  std::vector<curves::Key> keys;
  uint64_t h = 22;
  if (n > 0) {
    t = printedKnots(r, n, 0.1, 4);
    const std::vector<Pose> p = poses(r, n);
    c.fitCurve(t, p, &keys);
    head(c, size_t(n), want);
    for (int i = 0; i < n; ++i) {
      Pose x;
      MON_CHECK(c.evaluate(x, t[size_t(i)]), "evaluate");
      want.push_back(double(keys[size_t(i)]));
      for (int k = 0; k < 3; ++k) want.push_back(p[size_t(i)].getPosition().vector()[k]);
      want.push_back(t[size_t(i)]);
      h = hashP(mon::hashD(h, t[size_t(i)]), p[size_t(i)]);
    }
  } else { want.push_back(0); mon::count("empty_curves"); }
  const std::string s = title(r);
  const std::string out = captured([&] { c.print(s); });
  MON_CHECK(out.find(s) != std::string::npos, "the title '" << s << "' is not printed");
  shows(out, want, "rigid-body Hermite curve with " + std::to_string(n) + " knots");
  std::vector<double> after;
  c.getCurveTimes(&after);
  MON_CHECK(after == t, "printing changed the curve");
  if (n > 1) mon::nontrivial(h);
  mon::count("se3_prints");
}
static void slerp(Rng& r) {
  Slerp c;
  const int n = knotCount(r);
  std::vector<double> t, want;
  std::vector<curves::Key> keys;
  uint64_t h = 23;
  if (n > 0) {
    t = printedKnots(r, n, 0.1, 4);
    const std::vector<Pose> p = poses(r, n);
    c.fitCurve(t, p, &keys);
    head(c, size_t(n), want);
    if (n > 1) {
      double d = 0;
      for (int i = 1; i < n; ++i) d += (p[size_t(i)].getPosition().vector() - p[size_t(i - 1)].getPosition().vector()).norm();
      want.push_back((t.back() - t.front()) / (n - 1));
      want.push_back(d / (n - 1));
    }
    for (int i = 0; i < n; ++i) { want.push_back(double(keys[size_t(i)])); want.push_back(t[size_t(i)]); h = hashP(mon::hashD(h, t[size_t(i)]), p[size_t(i)]); }
  } else { want.push_back(0); mon::count("empty_curves"); }
  const std::string s = title(r);
  const std::string out = captured([&] { c.print(s); });
  MON_CHECK(out.find(s) != std::string::npos, "the title '" << s << "' is not printed");
  shows(out, want, "slerp curve with " + std::to_string(n) + " knots");
  std::vector<double> after;
  c.getCurveTimes(&after);
  MON_CHECK(after == t, "printing changed the curve");
  if (n > 1) mon::nontrivial(h);
  mon::count("slerp_prints");
}
static void scalar(Rng& r) {
  Q c;
  const int n = r.chance(0.03) ? r.range(30, 60) : r.range(2, 12);
  const std::vector<double> t = gen::knots(r, n, 0.05, 3, r.chance(0.3) ? 0 : r.chance(0.2) ? r.sign() * r.logreal(50, 1e5) : r.real(-50, 50));
  std::vector<double> x;
  uint64_t h = 24;
  for (int i = 0; i < n; ++i) { x.push_back(r.value(5)); h = mon::hashD(mon::hashD(h, t[size_t(i)]), x.back()); }
  if (r.chance(0.5)) { c.fitCurve(t, x, r.value(3), r.value(3), r.value(3), r.value(3), nullptr); mon::count("scalar_end_conditions"); } else c.fitCurve(t, x, nullptr);
  const std::string out = captured([&] { c.print(title(r)); });
  const std::vector<double> got = numbers(out);
  MON_CHECK(got.size() >= 8 && got.size() % 4 == 0, got.size() << " numbers printed:\n" << out);
  const int rows = int(got.size() / 4);
  for (int i = 0; i < rows; ++i) {
    const double s = t.front() + (t.back() - t.front()) * i / (rows - 1);
    MON_NEAR("sample_time", got[size_t(4 * i)], s, 1e-6, "row " << i << " of " << rows);
    double v[3], lo[3], hi[3];
    const double e = 1e-14 * (1 + std::fabs(t.front()) + std::fabs(t.back()));
    auto at = [&](double u, double* o) { u = std::min(std::max(u, c.getMinTime()), c.getMaxTime()); MON_CHECK(c.evaluate(o[0], u) && c.evaluateDerivative(o[1], u, 1) && c.evaluateDerivative(o[2], u, 2), "evaluate at " << u); };
    at(s, v); at(s - e, lo); at(s + e, hi);
    for (int d = 0; d < 3; ++d) {
      MON_NEAR("sample_value", got[size_t(4 * i + 1 + d)], v[d], 1e-6 + 1e-9 * std::fabs(v[d]) + 4 * (std::fabs(lo[d] - v[d]) + std::fabs(hi[d] - v[d])), "derivative " << d << " in row " << i << " of " << rows << " at " << s);
      mon::count("printed_numbers");
    }
  }
  mon::nontrivial(h);
  mon::count("scalar_prints");
}
static void oneCase(Rng& r, uint64_t id) {
  switch (id % 4) { case 0: e3(r); break; case 1: se3(r); break; case 2: slerp(r); break; default: scalar(r); }
}
int main(int argc, char** argv) { quietCerr(); return mon::run(argc, argv, "C25", oneCase); }
