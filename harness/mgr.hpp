// A coefficient manager running in step with a reference map; every observer is compared.
#pragma once
#include <memory>
#include <Eigen/Core>
#include <glog/logging.h>
#include <curves/LocalSupport2CoefficientManager.hpp>
#include "gen.hpp"

namespace mgr {
using namespace mon;
using curves::Key;

inline void setRandom(Rng& r, double& c) { c = r.value(5); }
inline void setRandom(Rng& r, Eigen::Vector3d& c) { c << r.value(5), r.value(5), r.value(5); }
inline void setRandom(Rng& r, Eigen::VectorXd& c) { c.resize(4); for (int i = 0; i < 4; ++i) c(i) = r.value(5); }
template <class C> C random(Rng& r) { C c; setRandom(r, c); return c; }

// Times from a small pool (collisions), with floating-point neighbours, negative and extreme ones.
inline double randomTime(Rng& r, int style) {
  switch (style) {
    case 0: return double(r.range(-8, 8));
    case 1: { double t = r.range(-3, 3) * 0.5; for (int k = r.range(0, 2); k > 0; --k) t = std::nextafter(t, r.chance(0.5) ? 1e9 : -1e9); return t; }
    case 2: return r.real(-100, 100);
    case 3: { static const double e[] = {0.0, -0.0, 1e-300, -1e-300, 1e300, -1e300, 1e9, 1e9 + 1e-6, 1, -1, 5e-324, -2.5e6, 3e7, -1.7e9, 1.5e9 + 0.25, -4e12}; return e[r.below(16)]; }
    default: return double(r.range(0, 60));
  }
}

template <class C>
struct Twin {
  using Mgr = curves::LocalSupport2CoefficientManager<C>;
  using Map = std::map<double, std::pair<Key, C>>;
  Mgr m;
  Map ref;
  std::set<Key> dead;    // keys removed from this manager
  Key lastDead = 0;

  static std::set<Key>& everUsed() { static std::set<Key> s; return s; }  // keys handed out in this process
  static void newKey(Key k) {
    static Key last = 0;
    MON_CHECK(everUsed().insert(k).second, "key " << k << " handed out twice");
    MON_CHECK(k > last, "key " << k << " not larger than the previous " << last);
    last = k;
  }
  void put(double t, Key k, const C& c) {
    auto it = ref.find(t);
    if (it != ref.end()) {
      MON_CHECK(k == it->second.first, "overwriting at " << t << " changed the key from " << it->second.first << " to " << k);
      it->second.second = c;
      count("overwrites");
    } else {
      newKey(k);
      ref.emplace(t, std::make_pair(k, c));
      count("inserts");
    }
  }
  typename Map::iterator pick(Rng& r) { auto it = ref.begin(); std::advance(it, r.below(uint32_t(ref.size()))); return it; }

  void compare(Rng& r) {
    MON_CHECK(m.size() == ref.size(), "size " << m.size() << " expected " << ref.size());
    MON_CHECK(m.empty() == ref.empty(), "empty() is " << m.empty());
    MON_CHECK(m.getMinTime() == (ref.empty() ? 0.0 : ref.begin()->first), "min time " << m.getMinTime());
    MON_CHECK(m.getMaxTime() == (ref.empty() ? 0.0 : ref.rbegin()->first), "max time " << m.getMaxTime());
    std::vector<double> times(r.below(3), 77.0);
    std::vector<Key> keys(r.below(3), 4711), app(r.below(3), 4712);
    const size_t pre = app.size();
    m.getTimes(&times);
    m.getKeys(&keys);
    m.appendKeys(&app);
    MON_CHECK(times.size() == ref.size() && keys.size() == ref.size() && app.size() == pre + ref.size(), "list lengths " << times.size() << " " << keys.size() << " " << app.size() << " for " << ref.size());
    for (size_t i = 0; i < pre; ++i) MON_CHECK(app[i] == 4712, "appendKeys changed existing entries");
    typename Mgr::CoefficientMap all;
    m.getCoefficients(&all);
    MON_CHECK(all.size() == ref.size(), "listing has " << all.size() << " entries for " << ref.size());
    const Mgr& cm = m;
    auto ci = cm.coefficientBegin();
    size_t i = 0;
    for (auto& e : ref) {
      const Key k = e.second.first;
      MON_CHECK(times[i] == e.first, "time list entry " << i << " is " << times[i] << " expected " << e.first);
      MON_CHECK(keys[i] == k && app[pre + i] == k, "key list entry " << i << " is " << keys[i] << "/" << app[pre + i] << " expected " << k);
      MON_CHECK(ci != cm.coefficientEnd() && ci->first == e.first && ci->second.key == k && ci->second.coefficient == e.second.second, "iteration differs at " << e.first);
      ++ci;
      auto f = all.find(k);
      MON_CHECK(f != all.end() && f->second == e.second.second, "listing misses or alters key " << k);
      MON_CHECK(m.hasCoefficientAtTime(e.first), "no coefficient at " << e.first);
      MON_CHECK(m.hasCoefficientWithKey(k), "no coefficient with key " << k);
      MON_CHECK(m.getCoefficientByKey(k) == e.second.second, "value of key " << k);
      MON_CHECK(m.getCoefficientTimeByKey(k) == e.first, "time of key " << k << " is " << m.getCoefficientTimeByKey(k) << " expected " << e.first);
      ++i;
    }
    MON_CHECK(ci == cm.coefficientEnd(), "iteration too long");
    int n = 0;
    for (auto k : dead) { if (++n > 12) break; MON_CHECK(!m.hasCoefficientWithKey(k), "removed key " << k << " is still reported"); }
    n = 0;
    for (auto k = dead.rbegin(); k != dead.rend() && n < 12; ++k, ++n) MON_CHECK(!m.hasCoefficientWithKey(*k), "removed key " << *k << " is still reported");
    if (lastDead) MON_CHECK(!m.hasCoefficientWithKey(lastDead), "the key removed last, " << lastDead << ", is still reported");
    for (int j = 0; j < 3; ++j) { const double t = randomTime(r, int(r.below(5))); MON_CHECK(m.hasCoefficientAtTime(t) == (ref.count(t) > 0), "hasCoefficientAtTime(" << t << ")"); }
    if (!ref.empty()) for (double dir : {-1e300, 1e300}) { const double t = std::nextafter(pick(r)->first, dir); MON_CHECK(m.hasCoefficientAtTime(t) == (ref.count(t) > 0), "hasCoefficientAtTime(" << t << ")"); }
    MON_CHECK(!m.hasCoefficientWithKey(0), "key 0 reported");
    m.checkInternalConsistency();
    count("comparisons");
  }

  // Many coefficients at once.
  void bulk(Rng& r, int n) {
    std::vector<double> t; std::vector<C> c; std::vector<Key> k;
    const int order = r.range(0, 2);
    double u = r.real(-50, 50);
    for (int i = 0; i < n; ++i) { t.push_back(order == 0 ? r.real(-100, 100) : order == 1 ? (u += r.real(0.001, 1)) : (u -= r.real(0.001, 1))); c.push_back(random<C>(r)); }
    op("insert " + std::to_string(n));
    m.insertCoefficients(t, c, &k);
    MON_CHECK(k.size() == size_t(n), "insertCoefficients returned " << k.size() << " keys for " << n);
    for (int i = 0; i < n; ++i) put(t[size_t(i)], k[size_t(i)], c[size_t(i)]);
    count("large_managers");
  }

  // One random operation; returns its name.
  std::string step(Rng& r, int style) {
    auto note = [&](std::string s) { op(s); return s; };
    int what = r.range(0, 19);
    if (ref.empty() && what >= 8 && what < 18) what = r.range(0, 7);
    if (what <= 3) {
      const double t = randomTime(r, style); const C c = random<C>(r);
      note("insert " + num(t));
      put(t, m.insertCoefficient(t, c), c);
      return "insert";
    }
    if (what <= 5) {
      std::vector<double> t; std::vector<C> c; std::vector<Key> k(r.below(3), 99);
      const size_t pre = k.size(), n = r.below(6);
      for (size_t i = 0; i < n; ++i) { t.push_back(randomTime(r, style)); c.push_back(random<C>(r)); }
      note("insert list " + list(t));
      if (r.chance(0.7)) {
        m.insertCoefficients(t, c, &k);
        MON_CHECK(k.size() == pre + n, "insertCoefficients returned " << k.size() - pre << " keys for " << n);
        for (size_t i = 0; i < pre; ++i) MON_CHECK(k[i] == 99, "insertCoefficients changed existing entries");
        for (size_t i = 0; i < n; ++i) put(t[i], k[pre + i], c[i]);
      } else {
        m.insertCoefficients(t, c);
        for (size_t i = 0; i < n; ++i) {
          const Key k1 = keyAt(t[i]);
          if (ref.count(t[i])) MON_CHECK(k1 == ref[t[i]].first, "overwriting at " << t[i] << " changed the key");
          else if (!everUsed().count(k1)) newKeyUnordered(k1);
          else MON_FAIL("key " << k1 << " handed out twice");
          ref[t[i]] = std::make_pair(k1, c[i]);
        }
        resetOrder();
      }
      return "insert list";
    }
    if (what <= 7) {
      const double t = ref.empty() ? randomTime(r, style) : ref.rbegin()->first + (r.chance(0.2) ? 0.0 : r.real(0.01, 3));
      const double u = ref.empty() || t > ref.rbegin()->first ? t : std::nextafter(ref.rbegin()->first, 1e308);
      const C c = random<C>(r);
      note("append " + num(u));
      std::vector<Key> k(r.below(2), 5);
      const size_t pre = k.size();
      if (r.chance(0.8)) { m.addCoefficientAtEnd(u, c, &k); MON_CHECK(k.size() == pre + 1, "addCoefficientAtEnd returned " << k.size() - pre << " keys"); put(u, k.back(), c); }
      else { m.addCoefficientAtEnd(u, c); put(u, keyAt(u), c); }
      count("appends");
      return "append";
    }
    if (what <= 9) {
      auto e = pick(r);
      const C c = random<C>(r);
      note("update key at " + num(e->first));
      m.updateCoefficientByKey(e->second.first, c);
      e->second.second = c;
      count("updates");
      return "update";
    }
    if (what == 10) {
      typename Mgr::CoefficientMap up;
      for (auto& e : ref) if (r.chance(0.4)) { const C c = random<C>(r); up[e.second.first] = c; e.second.second = c; }
      note("update map of " + std::to_string(up.size()));
      m.updateCoefficients(up);
      count("map_updates");
      return "update map";
    }
    if (what == 11) {  // values of consecutive coefficients
      auto e = pick(r);
      std::vector<double> t; std::vector<C> c;
      const int n = r.chance(0.3) ? 1000 : r.range(0, 5);
      for (int i = 0; i < n && e != ref.end(); ++i, ++e) { t.push_back(e->first); c.push_back(random<C>(r)); e->second.second = c.back(); }
      note("batch " + list(t));
      m.modifyCoefficientsValuesInBatch(t, c);
      count("batches");
      return "batch";
    }
    if (what <= 13) {  // move to another (free) time, possibly past its neighbours
      auto e = pick(r);
      double t = r.chance(0.2) ? e->first : r.chance(0.3) ? e->first + r.real(-0.4, 0.4) : randomTime(r, style);
      if (t != e->first && ref.count(t)) return "";
      const C c = random<C>(r);
      note("move " + num(e->first) + " to " + num(t));
      auto it = m.coefficientBegin();
      while (it != m.coefficientEnd() && it->first != e->first) ++it;
      MON_CHECK(it != m.coefficientEnd(), "iteration misses " << e->first);
      const Key k = e->second.first;
      m.modifyCoefficient(it, t, c);
      ref.erase(e);
      ref.emplace(t, std::make_pair(k, c));
      count("moves");
      return "move";
    }
    if (what <= 17) {
      auto e = pick(r);
      const Key k = e->second.first;
      const bool byKey = r.chance(0.5);
      note((byKey ? "remove key at " : "remove time ") + num(e->first));
      if (byKey) m.removeCoefficientWithKey(k); else m.removeCoefficientAtTime(e->first);
      ref.erase(e);
      dead.insert(k);
      lastDead = k;
      count(byKey ? "removals_by_key" : "removals_by_time");
      return "remove";
    }
    if (what == 18 && r.chance(0.3)) {
      note("clear");
      m.clear();
      for (auto& e : ref) dead.insert(e.second.first);
      ref.clear();
      count("clears");
      return "clear";
    }
    return "";
  }

 private:
  Key keyAt(double t) {
    const Mgr& cm = m;
    for (auto it = cm.coefficientBegin(); it != cm.coefficientEnd(); ++it) if (it->first == t) return it->second.key;
    MON_FAIL("inserted coefficient at " << t << " is missing");
  }
  void newKeyUnordered(Key k) { MON_CHECK(everUsed().insert(k).second, "key " << k << " handed out twice"); }
  void resetOrder() {}
};
}  // namespace mgr
