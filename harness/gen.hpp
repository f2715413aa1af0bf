// Workload generators shared by the polynomial harnesses.
#pragma once
#include <vector>
#include "mon.hpp"

namespace gen {
using mon::Rng;

// Strictly increasing knot times; spacing in [lo,hi], various patterns, any start.
inline std::vector<double> knots(Rng& r, int n, double lo, double hi, double start) {
  std::vector<double> t(1, start);
  const int pattern = r.range(0, 4);
  const double fixed = r.logreal(lo, hi);
  for (int i = 1; i < n; ++i) {
    double d;
    switch (pattern) {
      case 0: d = fixed; break;                                  // uniform
      case 1: d = r.real(lo, hi); break;                         // arbitrary
      case 2: d = r.logreal(lo, hi); break;                      // mixed magnitudes
      case 3: d = (i % 2) ? lo * 1.01 : hi * 0.99; break;        // alternating extremes
      default: d = std::min(hi, std::max(lo, 0.25 * r.range(1, 8))); break;  // dyadic
    }
    t.push_back(t.back() + d);
  }
  return t;
}

// The same with the usual spacing in most cases, and very short or very long intervals in some.
inline std::vector<double> knotsAnySpacing(Rng& r, int n, double lo, double hi, double start, bool veryShort = false) {
  static const double other[][2] = {{0.001, 0.005}, {0.005, 0.02}, {0.01, 1.0}, {1.0, 50.0}, {20.0, 1000.0}};
  if (!r.chance(0.25)) return knots(r, n, lo, hi, start);
  const double* g = other[veryShort ? r.below(5) : 1 + r.below(4)];
  if (std::fabs(start) > 1e6 && g[0] < 0.1) g = other[3];
  return knots(r, n, g[0], g[1], start);
}

inline std::vector<double> values(Rng& r, int n, double scale) {
  std::vector<double> v;
  const int pattern = r.range(0, 5);
  for (int i = 0; i < n; ++i) {
    switch (pattern) {
      case 0: v.push_back(scale); break;                          // constant
      case 1: v.push_back(scale * i); break;                      // ramp
      case 2: v.push_back(i % 2 ? scale : -scale); break;         // zig-zag
      default: v.push_back(r.value(scale)); break;
    }
  }
  return v;
}

inline double startTime(Rng& r) {
  if (r.chance(0.08)) return (r.chance(0.5) ? 1.4e9 : 1073741824.0) + (r.chance(0.5) ? double(r.range(0, 100000000)) : r.real(0, 1e8));  // wall clock
  switch (r.below(6)) {
    case 0: return 0.0;
    case 1: return double(r.range(-50, 50));
    case 2: return r.real(-100, 100);
    case 3: return 1000.0 * r.range(-3, 3) + 0.5;
    case 4: return r.real(-1, 1);
    default: return r.real(0, 20);
  }
}
}  // namespace gen
