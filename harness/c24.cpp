// C24: files exported by a Hermite curve hold exactly what the curve evaluates to.
#include <fstream>
#include <sstream>
#include <sys/stat.h>
#include "hermite.hpp"
#include "die.hpp"
#include <curves/helpers.hpp>
using namespace her;
typedef curves::CubicHermiteE3Curve E3;
typedef curves::CubicHermiteSE3Curve SE3C;

static void row(const E3& c, double t, std::vector<double>& o) {
  V3 x, v;
  MON_CHECK(c.evaluate(x, t) && c.evaluateDerivative(v, t, 1), "evaluate at " << t);
  for (const V3& y : {x, v}) for (int k = 0; k < 3; ++k) o.push_back(y[k]);
}
static void row(const SE3C& c, double t, std::vector<double>& o) {
  Pose p; TwistG w;
  MON_CHECK(c.evaluate(p, t) && c.evaluateDerivative(w, t, 1), "evaluate at " << t);
  for (int k = 0; k < 3; ++k) o.push_back(p.getPosition().vector()[k]);
  for (double q : {p.getRotation().w(), p.getRotation().x(), p.getRotation().y(), p.getRotation().z()}) o.push_back(q);
  for (const V3& y : {V3(w.getTranslationalVelocity().vector()), V3(w.getRotationalVelocity().vector())}) for (int k = 0; k < 3; ++k) o.push_back(y[k]);
}
static const std::vector<std::string> kE3 = {"t", "px", "py", "pz", "vx", "vy", "vz"};
static const std::vector<std::string> kSE3 = {"t", "px", "py", "pz", "rw", "rx", "ry", "rz", "vx", "vy", "vz", "wx", "wy", "wz"};

template <class C> static void evalFile(Rng& r, const C& c, const std::vector<double>& t, const std::string& file, const std::vector<std::string>& names) {
  const int n = r.chance(0.1) ? 1 : r.chance(0.1) ? 2 : r.chance(0.05) ? r.range(200, 3000) : r.range(2, 60);
  MON_CHECK(c.writeEvalToFile(file, n), "writeEvalToFile failed for a writable file, " << n << " samples");
  std::ifstream in(file);
  std::string line;
  MON_CHECK(bool(std::getline(in, line)), "no header line");
  std::istringstream hs(line);
  std::vector<std::string> cols;
  for (std::string w; hs >> w;) cols.push_back(w);
  MON_CHECK(cols == names, "header '" << line << "'");
  int rows = 0;
  while (std::getline(in, line)) {
    std::istringstream rs(line);
    std::vector<double> v;
    for (std::string w; rs >> w;) { char* e; v.push_back(strtod(w.c_str(), &e)); MON_CHECK(*e == 0, "not a number: " << w); }
    MON_CHECK(v.size() == cols.size(), "row " << rows << " has " << v.size() << " columns, the header names " << cols.size());
    MON_CHECK(rows < n, "more than " << n << " rows");
    const double s = n == 1 ? v[0] : std::min(t.back(), t.front() + (t.back() - t.front()) * rows / (n - 1));
    const double ulp = 4e-16 * (std::fabs(t.front()) + std::fabs(t.back()));  // of the sample time
    MON_NEAR("sample_time", v[0], s, 0.6e-6 + 4 * ulp, "row " << rows << " of " << n << ", curve from " << t.front() << " to " << t.back());
    if (n > 1) {
      std::vector<double> want(1, s), other(1, s);
      row(c, s, want);
      // the effect of a last-bit difference of the sample time
      std::vector<double> lo, hi;
      row(c, std::max(t.front(), s - 2 * ulp), lo);
      row(c, std::min(t.back(), s + 2 * ulp), hi);
      for (size_t k = 1; k < v.size(); ++k) {
        const double tol = 0.6e-6 + 1e-9 * std::fabs(want[k]) + 4 * (std::fabs(lo[k - 1] - want[k]) + std::fabs(hi[k - 1] - want[k]));
        if (names.size() > 10 && k >= 4 && k <= 7 && std::fabs(v[k] + want[k]) <= tol) continue;  // sign of a quaternion
        MON_NEAR("sample_value", v[k], want[k], tol, cols[k] << " in row " << rows << " of " << n << " at t=" << s);
        mon::count("file_numbers");
      }
    } else MON_CHECK(v[0] >= t.front() - 1e-6 && v[0] <= t.back() + 1e-6, "single sample at " << v[0]);
    ++rows;
  }
  MON_CHECK(rows == n, rows << " rows written for " << n << " samples of [" << t.front() << "," << t.back() << "]");
  mon::count("eval_files");
}
template <class C> static void unwritable(Rng& r, const C& c) {
  static const char* bad[] = {"/no-such-directory/f.txt", "", "/"};
  const int k = r.range(0, 2);
  const std::string f = k == 0 ? mon::M().scratch + bad[0] : k == 1 ? std::string() : mon::M().scratch;  // missing directory, empty name, a directory
  MON_CHECK(!c.writeEvalToFile(f, 10), "writeEvalToFile reports success for '" << f << "'");
  mon::count("unwritable_files");
}
static std::string fileName(Rng& r) {
  const std::string f = mon::M().scratch + "/e" + std::to_string(r.below(3)) + ".txt";
  if (r.chance(0.3)) unlink(f.c_str()); else mon::count("overwritten_files");
  return f;
}
static int knotCount(Rng& r) { return r.chance(0.1) ? 1 : r.chance(0.2) ? 2 : r.chance(0.03) ? r.range(100, 500) : r.range(3, 20); }

static void e3(Rng& r) {
  E3 c;
  const std::string file = fileName(r);
  if (r.chance(0.1)) { MON_CHECK(!c.writeEvalToFile(file, r.range(1, 9)), "an empty curve was written"); mon::count("empty_curves"); }
  const int n = knotCount(r);
  const std::vector<double> t = gen::knotsAnySpacing(r, n, 0.05, 5, gen::startTime(r));
  std::vector<V3> p;
  for (int i = 0; i < n; ++i) p.push_back(vec(r, 5));
  c.fitCurveWithDerivatives(t, p, vec(r, 3), vec(r, 3), nullptr);
  mon::op("fit " + mon::list(t));
  evalFile(r, c, t, file, kE3);
  if (r.chance(0.2)) unwritable(r, c);
  uint64_t h = 11;
  for (int i = 0; i < n; ++i) h = hashV(mon::hashD(h, t[size_t(i)]), p[size_t(i)]);
  if (n >= 2) mon::nontrivial(h);
  mon::count("e3_curves");
}

static void compare(const SE3C& c, const std::string& file, const std::vector<double>& t) {
  std::vector<double> got;
  std::vector<Eigen::VectorXd> v;
  curves::loadTimeVectorCSV(file, &got, &v);
  MON_CHECK(got == t, "saved at times " << mon::list(got) << " instead of " << mon::list(t));
  for (size_t i = 0; i < t.size(); ++i) {
    Pose x;
    MON_CHECK(c.evaluate(x, t[i]), "evaluate at " << t[i]);
    MON_CHECK(v[i].size() == 7, v[i].size() << " values in row " << i);
    const Quat& q = x.getRotation();
    const double want[7] = {x.getPosition().x(), x.getPosition().y(), x.getPosition().z(), q.w(), q.x(), q.y(), q.z()};
    for (int k = 0; k < 7; ++k) MON_CHECK(v[i][k] == want[k], "row " << i << " of " << t.size() << " column " << k << ": saved " << mon::num(v[i][k]) << ", the curve has " << mon::num(want[k]));
    mon::count("saved_poses");
  }
}
static void se3(Rng& r) {
  SE3C c;
  const std::string file = fileName(r);
  if (r.chance(0.1)) { MON_CHECK(!c.writeEvalToFile(file, r.range(1, 9)), "an empty curve was written"); mon::count("empty_curves"); }
  const int n = knotCount(r);
  const std::vector<double> t = gen::knotsAnySpacing(r, n, 0.1, 4, gen::startTime(r));
  const std::vector<Pose> p = poses(r, n);
  c.fitCurveWithDerivatives(t, p, TwistG(vec(r, 2), vec(r, 1)), TwistG(vec(r, 2), vec(r, 1)));
  mon::op("fit " + mon::list(t));
  switch (r.below(3)) {
    case 0: evalFile(r, c, t, file, kSE3); if (r.chance(0.2)) unwritable(r, c); break;
    case 1: c.saveCurveTimesAndValues(file); compare(c, file, t); mon::count("coefficient_files"); break;
    default: {
      std::vector<double> q;  // any times, in any order, also repeated
      for (int i = r.range(1, 40); i > 0; --i) {
        if (!q.empty() && r.chance(0.1)) q.push_back(q[r.below(q.size())]);
        else if (r.chance(0.3)) q.push_back(t[r.below(t.size())]);
        else q.push_back(r.real(t.front(), t.back()));
      }
      if (r.chance(0.5)) std::sort(q.begin(), q.end());
      c.saveCurveAtTimes(file, q);
      compare(c, file, q);
      mon::count("chosen_time_files");
      if (r.chance(0.15)) {
        std::vector<double> bad(q);
        const double out = r.chance(0.5) ? std::nextafter(t.back(), 1e300) + (r.chance(0.5) ? r.real(0, 9) : 0) : std::nextafter(t.front(), -1e300) - (r.chance(0.5) ? r.real(0, 9) : 0);
        bad.insert(bad.begin() + long(r.below(bad.size() + 1)), out);
        mustDie("save_outside_range", "time " + mon::num(out) + " outside [" + mon::num(t.front()) + "," + mon::num(t.back()) + "]", [&] { c.saveCurveAtTimes(file, bad); });
      }
    }
  }
  uint64_t h = 12;
  for (int i = 0; i < n; ++i) h = hashP(mon::hashD(h, t[size_t(i)]), p[size_t(i)]);
  if (n >= 2) mon::nontrivial(h);
  mon::sample(std::to_string(n) + " poses at " + mon::list(t) + " exported to " + file);
  mon::count("se3_curves");
}
static void oneCase(Rng& r, uint64_t id) { if (id % 3 == 0) e3(r); else se3(r); }
int main(int argc, char** argv) { quietCerr(); return mon::run(argc, argv, "C24", oneCase); }
