// C14: key generator: recorded histories of concurrent requests are checked offline for uniqueness and real-time order.
#include <Eigen/Core>
#include <algorithm>
#include <atomic>
#include <chrono>
#include <memory>
#include <thread>
#include <curves/KeyGenerator.hpp>
#include <curves/LocalSupport2CoefficientManager.hpp>
#include "gen.hpp"
using namespace mon;
using curves::Key;
using curves::KeyGenerator;
using Mgr = curves::LocalSupport2CoefficientManager<Eigen::Vector3d>;

static inline uint64_t now() { return uint64_t(std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count()); }

struct Event { uint64_t start, end; Key key; int thread; };

// Requests that had returned before this one started must have smaller keys.
static void offline(std::vector<Event>& ev, const char* what, uint64_t& overlaps, uint64_t& switches) {
  std::vector<Event> byKey(ev), byEnd(ev);
  std::sort(byKey.begin(), byKey.end(), [](const Event& a, const Event& b) { return a.key < b.key; });
  for (size_t i = 1; i < byKey.size(); ++i) {
    MON_CHECK(byKey[i].key != byKey[i - 1].key, what << ": key " << byKey[i].key << " handed out twice (threads " << byKey[i - 1].thread << " and " << byKey[i].thread << ")");
    if (byKey[i].thread != byKey[i - 1].thread) ++switches;
  }
  std::sort(ev.begin(), ev.end(), [](const Event& a, const Event& b) { return a.start < b.start; });
  std::sort(byEnd.begin(), byEnd.end(), [](const Event& a, const Event& b) { return a.end < b.end; });
  size_t j = 0;
  Key largest = 0;
  int who = -1;
  for (const Event& e : ev) {
    while (j < byEnd.size() && byEnd[j].end < e.start) { if (byEnd[j].key > largest) { largest = byEnd[j].key; who = byEnd[j].thread; } ++j; }
    MON_CHECK(e.key > largest, what << ": thread " << e.thread << " got key " << e.key << " in a request made after key " << largest << " had been handed to thread " << who);
  }
  for (size_t i = 1; i < ev.size(); ++i) if (ev[i].thread != ev[i - 1].thread && ev[i].start <= ev[i - 1].end) ++overlaps;
}

static std::set<Key>* processKeys;  // small histories only: uniqueness over the whole process
static Key processMax = 0;

static void history(Rng& r, bool heavy) {
  const int nt = r.chance(0.15) ? 2 : r.range(2, heavy ? 8 : 6);
  const int mode = r.range(0, 3);  // 0: direct, 1: managers, 2: mixed, 3: mixed with pauses
  const int per = heavy ? r.range(2000, 20000) : r.range(20, mode == 3 ? 60 : 150);
  std::vector<std::vector<Event>> ev;
  ev.resize(size_t(nt));
  std::vector<uint64_t> seeds;
  for (int i = 0; i < nt; ++i) { ev[size_t(i)].reserve(size_t(per) * 4 + 64); seeds.push_back(r.u64()); }
  std::atomic<int> ready(0);
  std::atomic<bool> bad(false);
  std::vector<std::thread> th;
  for (int i = 0; i < nt; ++i) th.emplace_back([&, i]() {
    Rng q(seeds[size_t(i)]);
    std::vector<Event>& out = ev[size_t(i)];
    std::unique_ptr<Mgr> m(new Mgr());
    ready.fetch_add(1, std::memory_order_relaxed);
    while (ready.load(std::memory_order_relaxed) < nt) std::this_thread::yield();
    double t = 0;
    for (int k = 0; k < per; ++k) {
      const int what = mode == 0 ? 0 : mode == 1 ? q.range(1, 3) : q.range(0, 3);
      const Eigen::Vector3d c(1, 2, 3);
      if (what == 0) {
        const uint64_t a = now(); const Key key = KeyGenerator::getNextKey(); const uint64_t b = now();
        out.push_back(Event{a, b, key, i});
      } else if (what == 1) {
        t += 1;
        const uint64_t a = now(); const Key key = m->insertCoefficient(t, c); const uint64_t b = now();
        out.push_back(Event{a, b, key, i});
      } else if (what == 2) {
        t += 1;
        std::vector<Key> keys;
        const uint64_t a = now(); m->addCoefficientAtEnd(t, c, &keys); const uint64_t b = now();
        if (keys.size() != 1) { bad = true; return; }
        out.push_back(Event{a, b, keys[0], i});
      } else {
        std::vector<double> ts; std::vector<Eigen::Vector3d> cs; std::vector<Key> keys;
        for (int z = q.range(1, 3); z > 0; --z) { t += 1; ts.push_back(t); cs.push_back(c); }
        const uint64_t a = now(); m->insertCoefficients(ts, cs, &keys); const uint64_t b = now();
        if (keys.size() != ts.size()) { bad = true; return; }
        for (size_t z = 0; z < keys.size(); ++z) { if (z && keys[z] <= keys[z - 1]) { bad = true; return; } out.push_back(Event{a, b, keys[z], i}); }
      }
      if (m->size() > 40) m.reset(new Mgr());  // destroying managers must not recycle keys
      if (mode == 3) { if (q.chance(0.2)) std::this_thread::yield(); if (q.chance(0.05)) std::this_thread::sleep_for(std::chrono::microseconds(q.range(1, 60))); }
    }
  });
  for (auto& x : th) x.join();
  MON_CHECK(!bad.load(), "an insertion returned the wrong number of keys, or a list of keys that does not increase");
  std::vector<Event> all;
  uint64_t h = 1469598103934665603ull;
  for (auto& v : ev) all.insert(all.end(), v.begin(), v.end());
  uint64_t overlaps = 0, switches = 0;
  offline(all, "concurrent", overlaps, switches);
  // against everything handed out earlier in this process
  Key lo = ~Key(0), hi = 0;
  for (auto& e : all) { lo = std::min(lo, e.key); hi = std::max(hi, e.key); }
  MON_CHECK(lo > processMax, "key " << lo << " after key " << processMax << " had been handed out before these threads started");
  processMax = hi;
  // interleaving signature: thread sequence in key order
  std::sort(all.begin(), all.end(), [](const Event& a, const Event& b) { return a.key < b.key; });
  for (auto& e : all) h = hashI(h, uint64_t(e.thread));
  if (switches > uint64_t(nt)) { nontrivial(h); sample(std::to_string(nt) + " threads, " + std::to_string(all.size()) + " keys, " + std::to_string(switches) + " thread switches in key order, " + std::to_string(overlaps) + " overlapping neighbours"); }
  count("keys", all.size());
  count("overlapping_requests", overlaps);
  count("thread_switches_in_key_order", switches);
  count(mode == 0 ? "direct" : mode == 1 ? "through_managers" : mode == 2 ? "mixed" : "mixed_with_pauses");
}

// Two threads strictly alternating: each request starts after the other's has returned.
static void alternate(Rng& r) {
  const int n = r.range(10, 200), nt = r.range(2, 4);
  std::atomic<int> turn(0);
  std::vector<Key> order(static_cast<size_t>(n), 0);
  std::vector<std::thread> th;
  std::vector<uint64_t> who;
  for (int i = 0; i < n; ++i) who.push_back(r.below(uint32_t(nt)));
  for (int i = 0; i < nt; ++i) th.emplace_back([&, i]() {
    Mgr m;
    for (int k = 0; k < n; ++k) {
      if (int(who[size_t(k)]) != i) continue;
      while (turn.load() != k) std::this_thread::yield();
      order[size_t(k)] = k % 2 ? KeyGenerator::getNextKey() : m.insertCoefficient(k, Eigen::Vector3d(k, 0, 0));
      turn.store(k + 1);
    }
  });
  for (auto& x : th) x.join();
  uint64_t h = 1469598103934665603ull;
  for (int k = 0; k < n; ++k) {
    MON_CHECK(order[size_t(k)] > processMax, "key " << order[size_t(k)] << " requested by thread " << who[size_t(k)] << " after key " << processMax << " had been handed out");
    processMax = order[size_t(k)];
    h = hashI(h, who[size_t(k)]);
  }
  nontrivial(h);
  count("alternations", uint64_t(n));
}

// One thread draws more keys than a 32 bit counter holds.
static void exhaust() {
  const uint64_t want = (uint64_t(1) << 32) + 100000, t0 = now();
  Key prev = KeyGenerator::getNextKey();
  for (uint64_t i = 0; i < want; ++i) {
    const Key k = KeyGenerator::getNextKey();
    if (!(k > prev)) MON_FAIL("key " << k << " after key " << prev);
    prev = k;
    if ((i & 0xffffff) == 0 && now() - t0 > 420ull * 1000000000ull) { count("keys_drawn_before_time_limit", i); return; }
  }
  evald(want);
  count("counter_range_keys", want);
  nontrivial(prev);
}

int main(int argc, char** argv) {
  bool heavy = false, wrap = false;
  for (int i = 1; i < argc; ++i) { heavy = heavy || !strcmp(argv[i], "--heavy"); wrap = wrap || !strcmp(argv[i], "--wrap"); }
  return run(argc, argv, "C14", [heavy, wrap](Rng& r, uint64_t id) {
    if (wrap) { exhaust(); return; }
    if (id % 4 == 0) alternate(r); else history(r, heavy);
  });
}
