// Draws from a bounded uniform integer distribution are symbolic: any value in the range may come
// out, so a property shown here holds for every seed and every generator. Used both in the IR and
// in native replays (where the draw is read back from the counterexample).
#pragma once
#include <random>
#include "vs.h"
extern int vs_rng_symbolic;
extern uint64_t vs_draw (uint64_t lo, uint64_t hi);
namespace std
{
#define VS_DIST(T, E) \
    template<> template<> inline T uniform_int_distribution<T>::operator() (E &g, const param_type &p) \
    { return (T) vs_draw ((uint64_t) p.a (), (uint64_t) p.b ()); }
VS_DIST (unsigned long, minstd_rand0)
VS_DIST (unsigned long, mt19937)
VS_DIST (unsigned long, mt19937_64)
VS_DIST (unsigned int, minstd_rand0)
VS_DIST (unsigned int, mt19937)
VS_DIST (unsigned int, mt19937_64)
VS_DIST (int, minstd_rand0)
VS_DIST (int, mt19937)
VS_DIST (int, mt19937_64)
#undef VS_DIST
}
