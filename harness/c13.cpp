// C13: copies and assignments of managers: equal, then independent, also after destruction.
#include "mgr.hpp"
using namespace mgr;
template <class C> static void history(Rng& r) {
  using T = Twin<C>;
  std::vector<std::unique_ptr<T>> t;
  t.emplace_back(new T());
  const int style = r.range(0, 5), rounds = r.range(2, M().thorough ? 40 : 18);
  uint64_t h = 1469598103934665603ull;
  if (r.chance(0.01)) t[0]->bulk(r, r.range(100, 600));
  auto expectEqual = [&](T& a, T& b) {
    bool want = a.ref.size() == b.ref.size();
    if (want) for (auto i = a.ref.begin(), j = b.ref.begin(); i != a.ref.end(); ++i, ++j) want = want && i->first == j->first && i->second.first == j->second.first && i->second.second == j->second.second;
    MON_CHECK(a.m.equals(b.m) == want, "equals is " << !want << " for managers of " << a.ref.size() << " and " << b.ref.size());
    MON_CHECK(b.m.equals(a.m) == want, "equals is not symmetric");
    MON_CHECK(a.m.equals(a.m), "a manager does not equal itself");
    count(want ? "equal_pairs" : "unequal_pairs");
  };
  size_t peak = 0, copies = 0;
  for (int k = 0; k < rounds; ++k) {
    T& x = *t[r.below(uint32_t(t.size()))];
    for (int i = r.range(0, 8); i > 0; --i) x.step(r, style == 5 ? int(r.below(5)) : style);
    const int what = r.range(0, 6);
    h = hashI(hashI(h, uint64_t(what)), x.ref.size());
    if (what <= 1 && t.size() < 6) {
      op("copy construct");
      std::unique_ptr<T> y(what == 0 ? new T(x) : new T(static_cast<const T&>(x)));
      expectEqual(x, *y);
      t.push_back(std::move(y));
      ++copies; count("copy_constructions");
    } else if (what == 2 && t.size() > 1) {
      T& y = *t[r.below(uint32_t(t.size()))];
      op("assign");
      if (&y == &x) count("self_assignments");
      T& alias = x;  // also self assignment
      y.m = alias.m; y.ref = alias.ref; y.dead = alias.dead; y.lastDead = alias.lastDead;
      expectEqual(x, y);
      ++copies; count("assignments");
    } else if (what == 3 && t.size() > 1) {
      op("destroy");
      t.erase(t.begin() + int(r.below(uint32_t(t.size()))));
      count("destructions");
    } else if (what == 4 && t.size() > 1) {
      T& a = *t[0]; T& b = *t[t.size() - 1];
      op("swap");
      std::swap(a.m, b.m); std::swap(a.ref, b.ref); std::swap(a.dead, b.dead); std::swap(a.lastDead, b.lastDead);
      count("swaps");
    } else if (what == 5 && t.size() < 6 && !x.ref.empty()) {  // near copies: equal but for one key, value or time
      std::unique_ptr<T> y(new T(x));
      auto e = y->pick(r);
      const double tt = e->first; const C c = e->second.second; const Key key = e->second.first;
      switch (r.below(3)) {
        case 0: { C d = random<C>(r); y->m.updateCoefficientByKey(key, d); e->second.second = d; break; }
        case 1: { y->m.removeCoefficientAtTime(tt); y->ref.erase(e); y->dead.insert(key); y->put(tt, y->m.insertCoefficient(tt, c), c); break; }
        default: { const double nt = std::nextafter(tt, 1e308); if (y->ref.count(nt)) break; auto it = y->m.coefficientBegin(); while (it->first != tt) ++it; y->m.modifyCoefficient(it, nt, c); y->ref.erase(e); y->ref.emplace(nt, std::make_pair(key, c)); }
      }
      expectEqual(x, *y);
      t.push_back(std::move(y));
      count("near_copies");
    } else { T fresh; expectEqual(x, fresh); }
    for (auto& y : t) { y->compare(r); peak = std::max(peak, y->ref.size()); }
    if (t.size() > 1) expectEqual(*t[r.below(uint32_t(t.size()))], *t[r.below(uint32_t(t.size()))]);
  }
  if (copies && peak > 1) { nontrivial(hashI(h, peak)); sample(std::to_string(copies) + " copies, " + std::to_string(rounds) + " rounds, peak size " + std::to_string(peak)); }
}
int main(int argc, char** argv) {
  return run(argc, argv, "C13", [](Rng& r, uint64_t id) {
    if (id % 3 == 0) history<double>(r); else history<Eigen::Vector3d>(r);
  });
}
