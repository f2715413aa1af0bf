// Monitoring runtime shared by all harnesses: seeded workload generation, violation
// records, event counters, distinct-case accounting, crash/hang localisation.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <limits>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace mon {

inline uint64_t splitmix(uint64_t& s) {
  uint64_t z = (s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

// A source of choices: either a PRNG (seeded per case) or a byte string (fuzzing).
class Rng {
 public:
  explicit Rng(uint64_t seed = 1) : s_(seed), data_(nullptr), size_(0), pos_(0) { splitmix(s_); }
  Rng(const uint8_t* d, size_t n) : s_(0x1234567), data_(d), size_(n), pos_(0) {}
  uint64_t u64() {
    if (data_) {
      uint64_t v = 0;
      for (int i = 0; i < 8; ++i) v = (v << 8) | byte();
      return v;
    }
    return splitmix(s_);
  }
  uint32_t below(uint32_t n) {  // [0,n)
    if (data_) {
      if (n <= 256) return byte() % n;
      uint32_t v = (uint32_t(byte()) << 24) | (uint32_t(byte()) << 16) | (uint32_t(byte()) << 8) | byte();
      return v % n;
    }
    return uint32_t((u64() >> 32) * uint64_t(n) >> 32);
  }
  int range(int a, int b) { return a + int(below(uint32_t(b - a + 1))); }  // [a,b]
  double sign() { return below(2) ? 1.0 : -1.0; }
  bool chance(double p) { return unit() < p; }
  double unit() {
    if (data_) return below(65536) / 65536.0;
    return double(u64() >> 11) * (1.0 / 9007199254740992.0);
  }
  double real(double a, double b) { return a + (b - a) * unit(); }
  double logreal(double a, double b) { return std::exp(real(std::log(a), std::log(b))); }
  // Values with mixed magnitudes, and "nice" values with high probability of coincidences.
  double value(double scale = 10.0) {
    switch (below(8)) {
      case 0: return 0.0;
      case 1: return double(range(-4, 4));
      case 2: return real(-1, 1) * scale * 10.0;
      case 3: return real(-1, 1) * 1e-3;
      default: return real(-1, 1) * scale;
    }
  }
  bool exhausted() const { return data_ && pos_ >= size_; }

 private:
  uint8_t byte() { return pos_ < size_ ? data_[pos_++] : (++pos_, uint8_t(splitmix(s_))); }
  uint64_t s_;
  const uint8_t* data_;
  size_t size_, pos_;
};

struct Abandon {};  // thrown to leave a case after a violation

class Monitor {
 public:
  static Monitor& get() { static Monitor m; return m; }
  std::string property = "?";
  uint64_t seed = 1, caseId = 0;
  bool thorough = false;
  bool traceOn = false;
  std::set<std::string> flags;  // further command line switches of a stage
  int shard = 0, shards = 1;
  uint64_t cases = 0, evaluations = 0, violations = 0;
  std::map<std::string, uint64_t> counters;
  std::map<std::string, double> maxima;
  std::vector<std::string> samples;
  std::unordered_set<uint64_t> distinct;
  uint64_t caseHash = 1469598103934665603ull;
  bool caseMarked = false;
  std::vector<std::string> trace;  // operations of the current case
  std::string outPath, casePath, scratch;
  int caseFd = -1;
  FILE* out = nullptr;
  std::mutex mu;

  void violation(const std::string& msg) {
    std::lock_guard<std::mutex> g(mu);
    ++violations;
    if (out && violations <= 20) {
      fprintf(out, "{\"type\":\"violation\",\"case\":%llu,\"seed\":%llu,\"msg\":%s,\"trace\":[", (unsigned long long)caseId,
              (unsigned long long)seed, quote(msg).c_str());
      size_t from = trace.size() > 60 ? trace.size() - 60 : 0;
      for (size_t i = from; i < trace.size(); ++i) fprintf(out, "%s%s", i == from ? "" : ",", quote(trace[i]).c_str());
      fprintf(out, "]}\n");
      fflush(out);
    }
    if (!out) fprintf(stderr, "VIOLATION case=%llu %s\n", (unsigned long long)caseId, msg.c_str());
  }
  static std::string quote(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
      if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
      else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
      else r += char(c);
    }
    return r + "\"";
  }
};

inline Monitor& M() { return Monitor::get(); }
inline void count(const char* name, uint64_t n = 1) { M().counters[name] += n; }
inline void observe(const char* name, double v) {
  auto& m = M().maxima;
  auto it = m.find(name);
  if (it == m.end()) m[name] = v; else if (v > it->second || v != v) it->second = v;
}
inline void evald(uint64_t n = 1) { M().evaluations += n; }
inline uint64_t hashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
  return h;
}
inline uint64_t hashD(uint64_t h, double d) { return hashBytes(&d, sizeof d, h); }
inline uint64_t hashI(uint64_t h, uint64_t d) { return hashBytes(&d, sizeof d, h); }
// A case that exercised the monitored behaviour non-trivially, identified by its content.
// (Several marks within one case are combined: a case counts once.)
inline void nontrivial(uint64_t h) { M().caseHash = hashBytes(&h, sizeof h, M().caseHash); M().caseMarked = true; }
inline void closeCase() { if (M().caseMarked && M().distinct.size() < 200000) M().distinct.insert(M().caseHash); M().caseHash = 1469598103934665603ull; M().caseMarked = false; }
inline void sample(const std::string& s) { if (M().samples.size() < 3) M().samples.push_back(s); }
inline void op(const std::string& s) {
  M().trace.push_back(s);
  if (M().traceOn) fprintf(stderr, "  op %s\n", s.c_str());
}
inline std::string num(double d) { char b[40]; snprintf(b, sizeof b, "%.17g", d); return b; }
template <class V> std::string list(const V& v) {
  std::string r = "[";
  for (size_t i = 0; i < size_t(v.size()); ++i) { if (i) r += ","; if (i == 12) { r += "...(" + std::to_string(v.size()) + ")"; break; } r += num(v[i]); }
  return r + "]";
}

#define MON_FAIL(expr) do { std::ostringstream mon_ss; mon_ss.precision(17); mon_ss << expr; mon::M().violation(mon_ss.str()); throw mon::Abandon(); } while (0)
#define MON_CHECK(cond, expr) do { ::mon::evald(); if (!(cond)) MON_FAIL("[" #cond "] " << expr); } while (0)
// |a-b| <= tol (also fails on NaN); keeps the largest ratio seen per channel as evidence of margins.
#define MON_NEAR(channel, a, b, tol, expr) do { ::mon::evald(); const double mon_a = (a), mon_b = (b), mon_t = (tol); \
  ::mon::observe(channel, mon_t > 0 ? std::fabs(mon_a - mon_b) / mon_t : 0.0); \
  if (!(std::fabs(mon_a - mon_b) <= mon_t)) MON_FAIL(channel << ": got " << mon_a << " expected " << mon_b << " tol " << mon_t << "; " << expr); } while (0)

inline void atCase(uint64_t id) {
  Monitor& m = M();
  m.caseId = id;
  m.trace.clear();
  if (m.caseFd >= 0) {
    char b[32];
    int n = snprintf(b, sizeof b, "%-20llu\n", (unsigned long long)id);
    if (pwrite(m.caseFd, b, size_t(n), 0) < 0) {}
  }
}

inline void writeStats() {
  Monitor& m = M();
  FILE* o = m.out ? m.out : stdout;
  fprintf(o, "{\"type\":\"stats\",\"cases\":%llu,\"evaluations\":%llu,\"violations\":%llu,\"counters\":{", (unsigned long long)m.cases,
          (unsigned long long)m.evaluations, (unsigned long long)m.violations);
  bool first = true;
  for (auto& c : m.counters) { fprintf(o, "%s%s:%llu", first ? "" : ",", Monitor::quote(c.first).c_str(), (unsigned long long)c.second); first = false; }
  fprintf(o, "},\"maxima\":{");
  first = true;
  for (auto& c : m.maxima) { fprintf(o, "%s%s:%.6g", first ? "" : ",", Monitor::quote(c.first).c_str(), std::isfinite(c.second) ? c.second : 1e308); first = false; }
  fprintf(o, "},\"samples\":[");
  first = true;
  for (auto& c : m.samples) { fprintf(o, "%s%s", first ? "" : ",", Monitor::quote(c).c_str()); first = false; }
  fprintf(o, "],\"distinct\":[");
  first = true;
  if (m.out) for (auto d : m.distinct) { fprintf(o, "%s\"%llx\"", first ? "" : ",", (unsigned long long)d); first = false; }
  fprintf(o, "]}\n");
  fflush(o);
}

using CaseFn = std::function<void(Rng&, uint64_t)>;

// argv: --seed S --cases N --shard I/K --out FILE --scratch DIR [--thorough] [--case ID] [--trace]
inline int run(int argc, char** argv, const char* property, const CaseFn& fn) {
  Monitor& m = M();
  m.property = property;
  uint64_t n = 200;
  long long only = -1;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--seed") m.seed = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--cases") n = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--shard") { if (sscanf(next().c_str(), "%d/%d", &m.shard, &m.shards) != 2) return 3; }
    else if (a == "--out") m.outPath = next();
    else if (a == "--scratch") m.scratch = next();
    else if (a == "--thorough") m.thorough = true;
    else if (a == "--case") only = atoll(next().c_str());
    else if (a == "--trace") m.traceOn = true;
    else m.flags.insert(a);
  }
  if (!m.outPath.empty()) {
    m.out = fopen(m.outPath.c_str(), "w");
    if (!m.out) return 3;
    m.caseFd = open((m.outPath + ".case").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
  }
  if (m.scratch.empty()) m.scratch = "/tmp";
  for (uint64_t id = uint64_t(m.shard); id < n; id += uint64_t(m.shards)) {
    if (only >= 0) id = uint64_t(only);
    uint64_t h = m.seed * 0x9e3779b97f4a7c15ull + 0x2545f4914f6cdd1dull * (id + 1);
    uint64_t s = splitmix(h);
    Rng rng(s);
    atCase(id);
    try {
      fn(rng, id);
    } catch (const Abandon&) {
    } catch (const std::exception& e) {
      m.violation(std::string("unexpected exception: ") + e.what());
    }
    ++m.cases;
    closeCase();
    if (m.violations >= 20 || only >= 0) break;
  }
  writeStats();
  if (m.out) fclose(m.out);
  return 0;
}

}  // namespace mon
