// C23: documented misuse, each in a forked process: it has to end in a fatal check or an exception, without any
// sanitizer diagnosis, and never return normally.
#include <fstream>
#include <curves/PolynomialSplineContainer.hpp>
#include <curves/polynomial_splines_containers.hpp>
#include <curves/helpers.hpp>
#include "mgr.hpp"
#include "die.hpp"
using namespace mon;
using namespace curves;
using T = mgr::Twin<Eigen::Vector3d>;

static void managers(Rng& r) {
  T x, y;
  const int style = r.range(0, 4);
  if (r.chance(0.02)) { x.bulk(r, r.range(100, 400)); count("large_managers"); }
  for (int i = r.range(0, 25); i > 0; --i) x.step(r, style);
  for (int i = r.range(0, 4); i > 0; --i) y.step(r, style);
  const Eigen::Vector3d c(1, 2, 3);
  Key badKey = 0;
  switch (r.below(4)) {
    case 0: badKey = 0; break;
    case 1: badKey = ~Key(0) - r.below(5); break;
    case 2: if (!x.dead.empty()) badKey = *x.dead.begin(); break;
    default: if (!y.ref.empty()) badKey = y.pick(r)->second.first; break;
  }
  double badTime = mgr::randomTime(r, style);
  if (!x.ref.empty() && r.chance(0.6)) badTime = std::nextafter(x.pick(r)->first, r.chance(0.5) ? 1e308 : -1e308);
  while (x.ref.count(badTime)) badTime += 0.37 + std::fabs(badTime) * 1e-3;
  const std::string d = std::to_string(x.ref.size()) + " coefficients, key " + std::to_string(badKey) + ", time " + num(badTime);
  const int what = r.range(0, 17);
  uint64_t h = hashI(hashI(1469598103934665603ull, uint64_t(what)), x.ref.size());
  auto& m = x.m;
  switch (what) {
    case 0: mustDie("remove_absent_key", d, [&] { m.removeCoefficientWithKey(badKey); }); break;
    case 1: mustDie("remove_absent_time", d, [&] { m.removeCoefficientAtTime(badTime); }); break;
    case 2: mustDie("update_absent_key", d, [&] { m.updateCoefficientByKey(badKey, c); }); break;
    case 3: mustDie("get_absent_key", d, [&] { m.getCoefficientByKey(badKey); }); break;
    case 4: mustDie("get_time_of_absent_key", d, [&] { m.getCoefficientTimeByKey(badKey); }); break;
    case 5: case 6: if (!x.ref.empty()) {
      const int how = r.range(0, 2);
      const double t = how == 0 ? x.ref.rbegin()->first : how == 1 ? x.pick(r)->first : x.ref.rbegin()->first - r.logreal(1e-9, 10);
      h = hashI(h, uint64_t(how));
      mustDie("append_not_after_end", d + " append " + num(t), [&] { std::vector<Key> k; m.addCoefficientAtEnd(t, c, r.chance(0.5) ? &k : nullptr); });
      if (t == x.ref.rbegin()->first) count("append_at_max_time");
    } break;
    case 7: case 8: if (x.ref.size() >= 2) {
      auto a = x.pick(r), b = x.pick(r);
      if (a == b) break;
      mustDie("move_onto_occupied_time", d, [&] { auto it = m.coefficientBegin(); while (it->first != a->first) ++it; m.modifyCoefficient(it, b->first, c); });
    } break;
    case 9: { const size_t n = r.chance(0.3) ? size_t(r.range(4, 40)) : r.below(4), k = n + 1 + r.below(r.chance(0.3) ? 20 : 2);
      const bool more = r.chance(0.5);
      std::vector<double> t; for (size_t i = 0; i < (more ? k : n); ++i) t.push_back(double(i) + 0.25);
      mustDie("insert_lists_of_different_length", d, [&] { m.insertCoefficients(t, std::vector<Eigen::Vector3d>(more ? n : k, c)); }); break; }
    case 10: case 11: case 12: {  // batch updates
      std::vector<double> t;
      if (!x.ref.empty()) { auto e = x.pick(r); for (int i = r.chance(0.2) ? r.range(7, 30) : r.range(1, 6); i > 0 && e != x.ref.end(); --i, ++e) t.push_back(e->first); }
      const int how = r.range(0, 5);
      h = hashI(h, uint64_t(how));
      size_t vals = 0;
      bool ok = false;
      if (how == 0) { vals = t.size() + 1 + r.below(2); ok = true; }                                                     // more values than times
      else if (how == 1) { t.push_back(badTime); vals = t.size() - 1; ok = true; }                                       // more times than values
      else if (how == 2) { t.insert(t.begin(), badTime); vals = t.size(); ok = true; }                                    // first time absent
      else if (how == 3 && !x.ref.empty()) { t.clear(); auto e = x.pick(r); for (; e != x.ref.end(); ++e) t.push_back(e->first); t.push_back(t.back() + 1); vals = t.size(); ok = t.back() > t[t.size() - 2]; }  // runs off the end
      else if (how == 4 && t.size() >= 3) { t.erase(t.begin() + 1); vals = t.size(); ok = true; }                         // skips one
      else if (how == 5 && t.size() >= 2) {                                                                              // an absent time somewhere
        const size_t j = size_t(r.range(1, int(t.size()) - 1));
        const double to = r.chance(0.5) ? 1e308 : -1e308;
        t[j] = r.chance(0.5) ? std::nextafter(t[j], to) : t[j] + std::copysign(r.logreal(1e-6, 100), to);
        vals = t.size(); ok = !x.ref.count(t[j]);
      }
      if (ok) { mustDie("batch_update_" + std::to_string(how), d, [&] { m.modifyCoefficientsValuesInBatch(t, std::vector<Eigen::Vector3d>(vals, c)); }); count("batch_misuse"); }
      break; }
    case 13: { T::Mgr::CoefficientMap u; for (auto& e : x.ref) if (r.chance(0.5)) u[e.second.first] = c; u[badKey] = c; mustDie("update_map_with_absent_key", d, [&] { m.updateCoefficients(u); }); break; }
    case 14: { const int how = r.range(0, 6);
      h = hashI(h, uint64_t(how));
      T::Mgr::CoefficientIter it;
      mustDie("missing_output_argument", d + " kind " + std::to_string(how), [&] {
        switch (how) { case 0: m.getKeys(nullptr); break; case 1: m.appendKeys(nullptr); break; case 2: m.getTimes(nullptr); break; case 3: m.getTimesInWindow(nullptr, m.getMinTime(), m.getMaxTime()); break;
          case 4: m.getCoefficients(nullptr); break; case 5: m.getCoefficientsAt(m.getMinTime(), nullptr, &it); break; default: m.getCoefficientsAt(m.getMinTime(), &it, nullptr); } });
      break; }
    default: if (x.ref.empty()) {
      std::vector<double> out(r.below(2));
      const double end = r.sign() * r.logreal(1e-6, 1e6);
      mustDie("window_of_empty_curve", d, [&] { m.getTimesInWindow(&out, 0.0, end); });
    } else {
      const int how = r.range(0, 2);
      h = hashI(h, uint64_t(how));
      std::vector<double> out;
      const double lo = m.getMinTime(), hi = m.getMaxTime();
      if (std::fabs(lo) > 1e200 || std::fabs(hi) > 1e200) break;
      const double by = r.logreal(1e-6, 1e6);
      auto off = [&](double q, double dir) { const double f = q + std::copysign(by, dir); return r.chance(0.5) || f == q ? std::nextafter(q, dir) : f; };
      const double beg = how == 2 ? off(lo, -1e308) : lo, end = how == 0 ? off(hi, 1e308) : how == 1 ? off(hi, -1e308) : hi;
      mustDie("window_outside_curve", d + " window " + num(beg) + " to " + num(end), [&] { m.getTimesInWindow(&out, beg, end); });
    }
  }
  nontrivial(hashD(h, badTime));
  x.compare(r);  // the parent is untouched
}

static void csv(Rng& r) {
  const std::string f = M().scratch + "/bad.csv";
  unlink(f.c_str());
  std::vector<double> t{1.0}, u{2.0};
  std::vector<Eigen::VectorXd> v{Eigen::VectorXd::Ones(2)};
  auto put = [&](const std::string& s) { std::ofstream o(f.c_str()); o << s; };
  const int loader = r.range(0, 2), what = r.range(0, 11);
  auto load = [&](int l) { if (l == 0) loadCSV(f); else if (l == 1) loadTimeVectorCSV(f, &t, &v); else loadTimeTimeVectorCSV(f, &t, &u, &v); };
  const std::string d = "loader " + std::to_string(loader);
  switch (what) {
    case 0: mustDie("csv_unreadable", d, [&] { load(loader); }); break;
    case 1: put(""); mustDie("csv_empty", d, [&] { load(loader == 0 ? 1 : loader); }); break;
    case 2: put("1\n2\n3\n"); mustDie("csv_too_narrow", d, [&] { load(loader == 0 ? 1 : loader); }); break;
    case 3: put("1,2\n2,3\n"); mustDie("csv_too_narrow", d, [&] { load(2); }); break;
    case 4: {  // a row shorter than the first one
      const int l = loader == 0 ? 1 : loader, rows = r.chance(0.2) ? r.range(6, 40) : r.range(1, 5), cols = r.range(l + 1, 9), at = r.chance(0.5) ? rows : r.range(1, rows), fields = r.range(1, cols - 1);
      std::string s;
      for (int i = 0; i <= rows; ++i) for (int j = 0, n = i == at ? fields : cols; j < n; ++j) s += std::to_string(i + j) + (j + 1 < n ? "," : "\n");
      put(s);
      mustDie("csv_short_row", d + " row " + std::to_string(at) + " of " + std::to_string(rows + 1) + " has " + std::to_string(fields) + " of " + std::to_string(cols) + " fields", [&] { load(l); });
      break; }
    case 5: { t.assign(size_t(r.chance(0.2) ? r.range(5, 30) : r.range(1, 4)), 1.0); v.assign(t.size() + 1 + r.below(2), Eigen::VectorXd::Ones(2)); const bool sw = r.chance(0.5); if (sw) { t.push_back(1); t.push_back(1); t.push_back(1); } mustDie("csv_write_lengths", d, [&] { writeTimeVectorCSV(f, t, v); }); break; }
    case 6: t.clear(); v.clear(); mustDie("csv_write_nothing", d, [&] { writeTimeVectorCSV(f, t, v); }); break;
    case 7: { const int n = r.chance(0.2) ? r.range(6, 30) : r.range(2, 5), dim = r.range(1, 6); t.assign(size_t(n), 1.0); v.assign(size_t(n), Eigen::VectorXd::Ones(dim)); v[size_t(r.range(1, n - 1))] = Eigen::VectorXd::Ones(r.chance(0.5) && dim > 1 ? r.range(1, dim - 1) : r.range(dim + 1, dim + 4)); mustDie("csv_write_dimensions", d, [&] { writeTimeVectorCSV(f, t, v); }); break; }
    case 8: { std::vector<std::vector<std::string>> m; if (r.chance(0.5)) { m.assign(size_t(r.chance(0.2) ? r.range(5, 30) : r.range(1, 4)), std::vector<std::string>(2, "a")); m[r.below(uint32_t(m.size()))].clear(); } mustDie("csv_write_empty", d, [&] { writeCSV(f, m); }); break; }
    case 9: {  // nowhere to write to
      static const char* to[] = {"/no/such/folder/x.csv", "", "/", "/dev/full"};
      const std::string out = r.chance(0.3) ? M().scratch : r.chance(0.3) ? M().scratch + "/missing/x.csv" : std::string(to[r.below(4)]);
      std::vector<std::vector<std::string>> m(size_t(r.chance(0.2) ? r.range(500, 3000) : r.range(1, 20)), std::vector<std::string>(2, "12345678"));
      if (r.chance(0.5)) mustDie(out == "/dev/full" ? "csv_disk_full" : "csv_unwritable", out, [&] { writeCSV(out, m); });
      else mustDie(out == "/dev/full" ? "csv_disk_full" : "csv_unwritable", out, [&] { writeTimeVectorCSV(out, std::vector<double>(m.size(), 1.0), std::vector<Eigen::VectorXd>(m.size(), Eigen::VectorXd::Ones(2))); });
      break; }
    default: put("1,2,3\n4,5,6\n"); { const int how = r.range(0, 4); mustDie("csv_missing_output", d + " kind " + std::to_string(how), [&] {
      switch (how) { case 0: loadTimeVectorCSV(f, nullptr, &v); break; case 1: loadTimeVectorCSV(f, &t, nullptr); break; case 2: loadTimeTimeVectorCSV(f, nullptr, &u, &v); break; case 3: loadTimeTimeVectorCSV(f, &t, nullptr, &v); break; default: loadTimeTimeVectorCSV(f, &t, &u, nullptr); } }); }
  }
  nontrivial(hashI(hashI(5, uint64_t(what)), uint64_t(loader)));
}

static void containers(Rng& r) {
  PolynomialSplineContainerQuintic k;
  const int n = r.range(0, 5);
  for (int i = 0; i < n; ++i) k.addSpline(PolynomialSplineQuintic(SplineOptions(1, 2, 3, 4, 5, 6, 7)));
  if (r.chance(0.3) && n) k.reserveSplines(100);
  static const int far[] = {1000000, -1, -2147483647 - 1, 2147483647};
  const int idx = r.chance(0.5) ? n : r.chance(0.3) ? n + r.range(1, 20) : far[r.below(4)];
  mustDie("segment_index_out_of_range", std::to_string(idx) + " of " + std::to_string(n), [&] { k.getSpline(idx); });
  nontrivial(hashI(hashI(11, uint64_t(n)), uint64_t(int64_t(idx))));
}

int main(int argc, char** argv) {
  signal(SIGPIPE, SIG_IGN);
  return run(argc, argv, "C23", [](Rng& r, uint64_t id) {
    const int w = r.range(0, 9);
    if (w <= 5) managers(r); else if (w <= 8) csv(r); else containers(r);
    if (id < 3) sample("misuse after a random history, in a forked process");
  });
}
