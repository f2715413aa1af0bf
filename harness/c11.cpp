// C11: coefficient managers in step with reference maps.
#include "mgr.hpp"
using namespace mgr;
template <class C> static void history(Rng& r) {
  const int nm = r.range(1, 3), style0 = r.range(0, 5);
  std::vector<std::unique_ptr<Twin<C>>> t;
  for (int i = 0; i < nm; ++i) t.emplace_back(new Twin<C>());
  t[0]->compare(r);
  const bool big = r.chance(0.01);
  if (big) { t[0]->bulk(r, r.range(100, 1500)); t[0]->compare(r); }
  const int steps = r.range(4, M().thorough ? 150 : 60);
  uint64_t h = 1469598103934665603ull;
  size_t peak = 0;
  for (int i = 0; i < steps; ++i) {
    Twin<C>& x = *t[r.below(uint32_t(nm))];
    const std::string what = x.step(r, style0 == 5 ? int(r.below(5)) : style0);
    if (what.empty()) continue;
    h = hashBytes(what.data(), what.size(), h);
    if (!big || r.chance(0.3)) x.compare(r);
    if (nm > 1 && r.chance(0.2)) for (auto& y : t) y->compare(r);
    peak = std::max(peak, x.ref.size());
  }
  for (auto& y : t) y->compare(r);
  observe("largest_manager_over_100", peak / 100.0);
  if (peak > 2) { nontrivial(hashI(h, peak)); sample(std::to_string(nm) + " managers, " + std::to_string(steps) + " steps, peak size " + std::to_string(peak)); }
}
int main(int argc, char** argv) {
  return run(argc, argv, "C11", [](Rng& r, uint64_t id) {
    if (id % 3 == 0) history<double>(r); else history<Eigen::Vector3d>(r);
  });
}
