// C12: bracketing, range and window queries against the definition on the reference map.
#include "mgr.hpp"
using namespace mgr;
using T = Twin<Eigen::Vector3d>;

static void bracket(T& x, double t) {
  T::Mgr::CoefficientIter a = static_cast<const T::Mgr&>(x.m).coefficientEnd(), b = a;
  const bool got = x.m.getCoefficientsAt(t, &a, &b);
  bool expect = false;
  auto lo = x.ref.end(), hi = x.ref.end();
  if (x.ref.size() >= 2 && t >= x.ref.begin()->first && t <= x.ref.rbegin()->first) {
    expect = true;
    hi = t == x.ref.rbegin()->first ? std::prev(x.ref.end()) : x.ref.upper_bound(t);
    lo = std::prev(hi);
  }
  std::ostringstream d; d.precision(17); d << "at " << t << " of " << x.ref.size() << " coefficients [" << x.m.getMinTime() << "," << x.m.getMaxTime() << "]";
  MON_CHECK(got == expect, "bracketing returned " << got << " " << d.str());
  count(got ? "brackets" : "bracket_refusals");
  if (!got) return;
  MON_CHECK(a->first == lo->first && b->first == hi->first, "bracket [" << a->first << "," << b->first << "] expected [" << lo->first << "," << hi->first << "] " << d.str());
  MON_CHECK(a->second.key == lo->second.first && b->second.key == hi->second.first, "keys " << d.str());
  MON_CHECK(a->second.coefficient == lo->second.second && b->second.coefficient == hi->second.second, "values " << d.str());
  if (t == x.ref.rbegin()->first) count("bracket_at_max");
}
static void rangeQuery(T& x, double s, double e) {
  T::Mgr::CoefficientMap got;
  x.m.getCoefficientsInRange(s, e, &got);
  std::map<Key, Eigen::Vector3d> want;
  if (!x.ref.empty() && s <= e && s <= x.ref.rbegin()->first && e >= x.ref.begin()->first) {
    auto lo = x.ref.upper_bound(s);
    if (lo != x.ref.begin()) --lo;
    for (auto it = lo; it != x.ref.end(); ++it) { want[it->second.first] = it->second.second; if (it->first >= e) break; }
  }
  MON_CHECK(got.size() == want.size(), "range [" << s << "," << e << "] gives " << got.size() << " coefficients, expected " << want.size() << " of " << x.ref.size() << " in [" << x.m.getMinTime() << "," << x.m.getMaxTime() << "]");
  for (auto& w : want) { auto f = got.find(w.first); MON_CHECK(f != got.end() && f->second == w.second, "range [" << s << "," << e << "] misses or alters key " << w.first); }
  count(want.empty() ? "ranges_outside" : "ranges");
  if (!x.ref.empty() && (s < x.ref.begin()->first || e > x.ref.rbegin()->first)) count("ranges_reaching_beyond");
}
static void window(T& x, double s) {
  std::vector<double> got(3, 1.0), want;
  x.m.getTimesInWindow(&got, s, x.m.getMaxTime());
  for (auto& e : x.ref) if (e.first >= s) want.push_back(e.first);
  MON_CHECK(got == want, "window from " << s << ": " << list(got) << " expected " << list(want));
  count("windows");
}
int main(int argc, char** argv) {
  return run(argc, argv, "C12", [](Rng& r, uint64_t) {
    T x;
    const int style = r.range(0, 5), rounds = r.range(1, 6);
    uint64_t h = 1469598103934665603ull;
    size_t peak = 0;
    if (r.chance(0.01)) x.bulk(r, r.range(100, 1000));
    for (int k = 0; k < rounds; ++k) {
      for (int i = r.range(0, 14); i > 0; --i) x.step(r, style == 5 ? int(r.below(5)) : style);
      std::vector<double> q{-1e301, 1e301, 0.0};
      for (auto& e : x.ref) { q.push_back(e.first); q.push_back(std::nextafter(e.first, 1e308)); q.push_back(std::nextafter(e.first, -1e308)); h = hashD(h, e.first); }
      if (!x.ref.empty()) for (int i = 0; i < 6; ++i) q.push_back(r.real(x.ref.begin()->first - 1, x.ref.rbegin()->first + 1));
      if (q.size() > 300) { std::vector<double> s; for (double t : q) if (r.chance(120.0 / q.size())) s.push_back(t); s.push_back(x.ref.begin()->first); s.push_back(x.ref.rbegin()->first); q.swap(s); }
      for (double t : q) bracket(x, t);
      for (int i = 0; i < 20; ++i) rangeQuery(x, q[r.below(uint32_t(q.size()))], q[r.below(uint32_t(q.size()))]);
      for (double t : q) if (r.chance(0.2)) rangeQuery(x, t, t);
      if (!x.ref.empty()) { rangeQuery(x, x.ref.begin()->first, x.ref.rbegin()->first); rangeQuery(x, x.ref.begin()->first - 1, x.ref.rbegin()->first + 1); }
      for (double t : q) if (!x.ref.empty() && t >= x.ref.begin()->first) window(x, t);
      peak = std::max(peak, x.ref.size());
      if (x.ref.empty()) count("queries_on_empty");
      if (x.ref.size() == 1) count("queries_on_single");
    }
    if (peak >= 2) { nontrivial(h); sample("managers of up to " + std::to_string(peak) + " coefficients, time style " + std::to_string(style)); }
  });
}
