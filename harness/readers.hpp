// One object shared by reader threads through its const interface (class O: name(), kinds, width, query()).
#pragma once
#include <atomic>
#include <cmath>
#include <cstring>
#include <thread>
#include "mon.hpp"
// A time for the query parameter u: mostly anywhere in [lo, hi], sometimes exactly one of the given times.
static double timeFor(double u, double lo, double hi, const std::vector<double>& knots) {
  const double v = u * 16 - std::floor(u * 16);  // the second half of u's digits
  if (v < 0.2 && !knots.empty()) return u < 0.25 ? knots.front() : u > 0.75 ? knots.back() : knots[size_t((u - 0.25) * 1.99 * double(knots.size()))];
  return lo + u * (hi - lo);
}
template <class O> struct Query { int kind; double u; double want[O::width]; };

template <class O> static void shared(mon::Rng& r, double (*unrelated)(mon::Rng&)) {
  O obj(r);
  const O& c = obj;
  const int nt = r.chance(0.1) ? r.range(6, 8) : r.range(2, 5), others = r.range(0, 2), nq = r.range(20, mon::M().thorough ? 200 : 80);
  typedef Query<O> Q;
  std::vector<Q> qs;
  for (int i = 0; i < nq; ++i) {
    Q q; q.kind = r.range(0, O::kinds - 1); q.u = r.unit();
    memset(q.want, 0, sizeof q.want);
    qs.push_back(q);
  }
  for (auto& q : qs) c.query(q.kind, q.u, q.want);
  for (int i = nq - 1; i >= 0; --i) {  // purity: the same answers again, in another order
    double o[O::width] = {};
    c.query(qs[size_t(i)].kind, qs[size_t(i)].u, o);
    MON_CHECK(!memcmp(o, qs[size_t(i)].want, sizeof o), O::name() << ": query " << qs[size_t(i)].kind << " at " << qs[size_t(i)].u << " changed from " << qs[size_t(i)].want[0] << " to " << o[0] << " without any modification");
  }
  std::atomic<int> ready(0), wrong(-1);
  std::vector<std::vector<int>> orders;
  std::vector<uint64_t> seeds;
  for (int i = 0; i < nt + others; ++i) seeds.push_back(r.u64());
  std::vector<double> sums(size_t(others), 0.0), want;
  for (int i = 0; i < others; ++i) { mon::Rng q(seeds[size_t(nt + i)]); double s = 0; for (int k = 0; k < 3; ++k) s += unrelated(q); want.push_back(s); }
  std::vector<std::thread> th;
  for (int i = 0; i < nt + others; ++i) th.emplace_back([&, i]() {
    mon::Rng q(seeds[size_t(i)]);
    ready.fetch_add(1, std::memory_order_relaxed);
    while (ready.load(std::memory_order_relaxed) < nt + others) std::this_thread::yield();
    if (i < nt) for (int k = 0; k < nq; ++k) {
      const int j = q.range(0, nq - 1);
      double o[O::width] = {};
      c.query(qs[size_t(j)].kind, qs[size_t(j)].u, o);
      if (memcmp(o, qs[size_t(j)].want, sizeof o)) wrong.store(j, std::memory_order_relaxed);
      if (q.chance(0.02)) std::this_thread::yield();
    } else { double s = 0; for (int k = 0; k < 3; ++k) s += unrelated(q); sums[size_t(i - nt)] = s; }
  });
  for (auto& x : th) x.join();
  const int w = wrong.load();
  MON_CHECK(w < 0, O::name() << ": concurrent query " << (w < 0 ? 0 : qs[size_t(w)].kind) << " differs from the single-threaded result");
  for (int i = 0; i < others; ++i) MON_CHECK(memcmp(&sums[size_t(i)], &want[size_t(i)], sizeof(double)) == 0, "unrelated objects: " << sums[size_t(i)] << " concurrently, " << want[size_t(i)] << " alone");
  for (auto& q : qs) { double o[O::width] = {}; c.query(q.kind, q.u, o); MON_CHECK(!memcmp(o, q.want, sizeof o), O::name() << ": changed by concurrent evaluation"); }
  mon::count(O::name());
  if (c.empty()) mon::count("empty_objects");
  mon::count("concurrent_queries", uint64_t(nt) * uint64_t(nq));
  if (others) mon::count("cases_with_unrelated_threads");
  uint64_t h = mon::hashBytes(O::name(), strlen(O::name()));
  for (auto& q : qs) h = mon::hashD(h, q.want[0]);
  mon::nontrivial(h);
  mon::sample(std::string(O::name()) + ": " + std::to_string(nt) + " readers, " + std::to_string(others) + " threads on other objects, " + std::to_string(nq) + " queries each");
}

