// C17: CSV round trips through real files in a scratch directory.
#include <Eigen/Core>
#include <clocale>
#include <locale>
#include <sys/stat.h>
#include <curves/helpers.hpp>
#include "gen.hpp"
using namespace mon;

static double number(Rng& r) {
  switch (r.below(14)) {
    case 0: { double d; do { uint64_t u = r.u64(); memcpy(&d, &u, 8); } while (!std::isfinite(d)); return d; }  // any bit pattern
    case 1: return 0.0;
    case 2: return -0.0;
    case 3: return double(r.range(-1000000, 1000000));
    case 4: { static const double e[] = {5e-324, 2.2250738585072014e-308, 2.2250738585072009e-308, 1.7976931348623157e308, -1.7976931348623157e308, 1e-5, 1e5, 123456.789, 1234567.0, 1e6, 1e15, 1e16, 9007199254740993.0, 0.1, 1.0 / 3}; return e[r.below(15)]; }
    case 5: return std::nextafter(double(r.range(-3, 3)), r.chance(0.5) ? 1e9 : -1e9);
    case 6: return 1.4e9 + r.real(0, 1e6);             // time stamps with microseconds
    case 7: return std::floor(r.real(0, 1e9)) / 1e6;
    case 8: { double d; do { uint64_t u = r.u64(); memcpy(&d, &u, 8); } while (!std::isfinite(d)); return d; }
    case 9: return r.logreal(1e-320, 1e300) * (r.chance(0.5) ? 1 : -1);
    default: return r.value(100);
  }
}
static std::string text(Rng& r) {
  static const char* words[] = {"a", "0", " ", "time", "x y", "\"q\"", "'", "1e5", "-0", "nan", ";", "\t", "#c", "\\n", "caf\xc3\xa9", "  lead", "trail  ", "=SUM(A1)", "%s%n", "\r"};
  if (r.chance(0.4)) return words[r.below(20)];
  std::string s;
  const int n = r.chance(0.05) ? r.range(200, 5000) : r.range(1, 12);
  while (int(s.size()) < n) { const char c = char(r.range(1, 255)); if (c != ',' && c != '\n') s += c; }
  return s;
}
// The library runs in the locale of its process; in many of them numbers have a decimal comma and grouped digits.
struct Comma : std::numpunct<char> {
  char do_decimal_point() const override { return ','; }
  char do_thousands_sep() const override { return '.'; }
  std::string do_grouping() const override { return "\3"; }
};
static bool makeGermanLocale() {
  const std::string dir = M().scratch + "/locale";
  mkdir(dir.c_str(), 0755);
  const std::string cmd = "localedef --no-archive -i de_DE -f UTF-8 '" + dir + "/de_DE.UTF-8' >/dev/null 2>&1";
  if (system(cmd.c_str()) != 0) return false;
  setenv("LOCPATH", dir.c_str(), 1);
  const bool ok = setlocale(LC_NUMERIC, "de_DE.UTF-8") != nullptr;
  setlocale(LC_NUMERIC, "C");
  return ok;
}
struct InLocale {  // around every call of the library
  explicit InLocale(int kind) {
    if (kind == 1) std::locale::global(std::locale(std::locale::classic(), new Comma));
    if (kind == 2) setlocale(LC_NUMERIC, "de_DE.UTF-8");
    if (kind == 3) std::locale::global(std::locale("de_DE.UTF-8"));
  }
  ~InLocale() { std::locale::global(std::locale::classic()); setlocale(LC_ALL, "C"); }
};
static bool same(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }

int main(int argc, char** argv) {
  return run(argc, argv, "C17", [](Rng& r, uint64_t id) {
    const bool huge = r.chance(0.0003);
    const int rows = huge ? r.range(65000, 70000) : r.chance(0.005) ? r.range(1000, 5000) : r.chance(0.1) ? r.range(50, 300) : r.chance(0.2) ? 1 : r.range(1, 20);
    const int cols = huge || r.chance(0.25) ? 1 : rows < 50 && r.chance(0.03) ? r.range(30, 600) : r.range(1, rows < 1000 && r.chance(0.2) ? 20 : 7);
    if (huge) count("files_beyond_65536_rows"); if (cols >= 30) count("wide_files");
    const std::string file = M().scratch + (r.chance(0.2) ? "/a file.csv" : "/f" + std::to_string(r.below(3)) + ".csv");
    if (r.chance(0.3)) unlink(file.c_str()); else count("overwritten_files");
    const int what = int(id % 3);
    static const bool german = makeGermanLocale();
    const int loc = r.chance(0.6) ? 0 : r.range(1, german ? 3 : 1);
    if (loc == 1) count("files_with_comma_facet"); if (loc > 1) count("files_in_german_locale");
    uint64_t h = hashI(hashI(hashI(1469598103934665603ull, uint64_t(what)), uint64_t(rows)), uint64_t(cols));
    std::ostringstream d; d << rows << "x" << cols;
    if (what == 0) {
      std::vector<double> t, t2(r.below(4), 3.0);
      std::vector<Eigen::VectorXd> v, v2(r.below(4), Eigen::VectorXd::Ones(r.range(1, 9)));
      for (int i = 0; i < rows; ++i) { t.push_back(number(r)); Eigen::VectorXd x(cols); for (int j = 0; j < cols; ++j) x(j) = number(r); v.push_back(x); h = hashD(h, x(0)); }
      { InLocale l(loc); curves::writeTimeVectorCSV(file, t, v); }
      const int loads = r.range(1, 2);
      for (int l = 0; l < loads; ++l) {  // also into arguments that hold the previous result
        { InLocale m(loc); curves::loadTimeVectorCSV(file, &t2, &v2); }
        MON_CHECK(int(t2.size()) == rows && int(v2.size()) == rows, "wrote " << d.str() << " read " << t2.size() << " times, " << v2.size() << " vectors");
        for (int i = 0; i < rows; ++i) {
          MON_CHECK(same(t[size_t(i)], t2[size_t(i)]), "row " << i << " time " << t[size_t(i)] << " read as " << t2[size_t(i)]);
          MON_CHECK(v2[size_t(i)].size() == cols, "row " << i << " has " << v2[size_t(i)].size() << " entries, wrote " << cols);
          for (int j = 0; j < cols; ++j) MON_CHECK(same(v[size_t(i)](j), v2[size_t(i)](j)), "row " << i << " column " << j << ": " << v[size_t(i)](j) << " read as " << v2[size_t(i)](j));
        }
      }
      auto raw = curves::loadCSV(file);  // format: time first
      MON_CHECK(int(raw.size()) == rows && int(raw[0].size()) == cols + 1 && same(atof(raw[0][0].c_str()), t[0]), "time is not the first column");
      count("time_vector_roundtrips");
      count("numbers", uint64_t(rows) * uint64_t(cols + 1));
    } else if (what == 1) {
      std::vector<std::vector<std::string>> m;
      for (int i = 0; i < rows; ++i) { m.emplace_back(); for (int j = 0; j < cols; ++j) { m.back().push_back(text(r)); h = hashBytes(m.back().back().data(), m.back().back().size(), h); } }
      { InLocale l(loc); curves::writeCSV(file, m); }
      std::vector<std::vector<std::string>> got;
      { InLocale l(loc); got = curves::loadCSV(file); }
      MON_CHECK(got.size() == m.size(), "wrote " << m.size() << " rows, read " << got.size());
      for (size_t i = 0; i < m.size(); ++i) {
        MON_CHECK(got[i].size() == m[i].size(), "row " << i << ": wrote " << m[i].size() << " fields, read " << got[i].size());
        for (size_t j = 0; j < m[i].size(); ++j) MON_CHECK(got[i][j] == m[i][j], "row " << i << " field " << j << ": wrote '" << m[i][j] << "' read '" << got[i][j] << "'");
      }
      count("string_roundtrips");
    } else {
      std::vector<std::vector<double>> w;
      std::vector<std::vector<std::string>> m;
      for (int i = 0; i < rows; ++i) {
        w.emplace_back(); m.emplace_back();
        for (int j = 0; j < cols + 2; ++j) { w.back().push_back(number(r)); m.back().push_back(num(w.back().back())); h = hashD(h, w.back().back()); }
      }
      { InLocale l(loc); curves::writeCSV(file, m); }
      std::vector<double> a(r.below(3), 9.0), b(r.below(3), 8.0);
      std::vector<Eigen::VectorXd> v(r.below(3), Eigen::VectorXd::Zero(2));
      { InLocale l(loc); curves::loadTimeTimeVectorCSV(file, &a, &b, &v); }
      MON_CHECK(int(a.size()) == rows && int(b.size()) == rows && int(v.size()) == rows, "wrote " << d.str() << " read " << a.size() << "/" << b.size() << "/" << v.size());
      for (size_t i = 0; i < size_t(rows); ++i) {
        MON_CHECK(same(a[i], w[i][0]), "row " << i << " first time " << w[i][0] << " read as " << a[i]);
        MON_CHECK(same(b[i], w[i][1]), "row " << i << " second time " << w[i][1] << " read as " << b[i]);
        MON_CHECK(v[i].size() == cols, "row " << i << " vector has " << v[i].size() << " entries instead of " << cols);
        for (int j = 0; j < cols; ++j) MON_CHECK(same(v[i](j), w[i][size_t(j) + 2]), "row " << i << " entry " << j << ": " << w[i][size_t(j) + 2] << " read as " << v[i](j));
      }
      count("time_time_vector_loads");
    }
    nontrivial(h);
    sample(d.str() + (what == 0 ? " time vector" : what == 1 ? " strings" : " time time vector"));
  });
}
