// Compile `template <int N> void oneOrder(mon::Rng&)` in one translation unit per order.
#pragma once
#include "gen.hpp"
template <int N> void oneOrder(mon::Rng& r);
#if PART > 0
#define ORDERS_MAIN(prop, pick) template void oneOrder<PART>(mon::Rng&);
#else
extern template void oneOrder<1>(mon::Rng&);
extern template void oneOrder<2>(mon::Rng&);
extern template void oneOrder<3>(mon::Rng&);
extern template void oneOrder<4>(mon::Rng&);
extern template void oneOrder<5>(mon::Rng&);
inline void runOrder(int n, mon::Rng& r) {
  switch (n) { case 1: oneOrder<1>(r); break; case 2: oneOrder<2>(r); break; case 3: oneOrder<3>(r); break;
               case 4: oneOrder<4>(r); break; default: oneOrder<5>(r); }
}
#define ORDERS_MAIN(prop, pick) \
  int main(int argc, char** argv) { return mon::run(argc, argv, prop, [](mon::Rng& r, uint64_t id) { pick }); }
#endif
