// Stand-in: the part of roscpp used by curves_ros.
#pragma once
#include <cstdint>
namespace ros {
class Duration {
 public:
  int32_t sec, nsec;
  Duration() : sec(0), nsec(0) {}
  Duration(int32_t s, int32_t ns) : sec(s), nsec(ns) {}
  double toSec() const { return double(sec) + 1e-9 * double(nsec); }
};
}
